"""Driver of one check: model-check the specification, replay into the real code, validate the log."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from tlv.tlc import MachineryError, run_tlc, tail

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('TLV_REPO', '/repo')
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
CORES = int(os.environ.get('TLV_CORES', '8'))


class Part:
    """One specification module, its stimuli and its conformance harness.

    name      unique within its harness module
    trace     name of the trace module in spec/ (None: nothing to validate)
    cfg       extra lines for the trace configuration (constants)
    mc        list of dict(module=, cfg=, thorough_cfg=, heap=): model-checking runs of the design spec
    clauses   regular expression: which verdict clauses count for the property (None: all)
    cases     function (tier, seed, stim) -> list of JSON-able cases
    run       function (case, emit): execute one case against the real code
    """

    def __init__(self, name, trace, run, cases, mc=(), cfg='', clauses=None, case_seconds=20,
                 shards=None, describe=None, heap='2500m', nontrivial=None):
        self.name, self.trace, self.run, self.cases = name, trace, run, cases
        self.mc, self.cfg, self.clauses = list(mc), cfg, clauses
        self.case_seconds, self.shards, self.heap = case_seconds, shards or CORES, heap
        self.describe = describe
        self.nontrivial = nontrivial
        self.module = None


def load_known(prop):
    found = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as handle:
            for line in handle:
                match = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                if match and match.group(1) == prop:
                    found.append((match.group(2), match.group(3)))
    return found


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='tlv_%s_' % prop)
        self.states = self.transitions = self.mc_distinct = 0
        self.cases_run = self.records = self.histories = 0
        self.ops = {}
        self.samples = []
        self.mc_runs = []
        self.bad = []          # (part, case, clauses, records of that case, line in case)
        self.nontrivial = set()
        self.hangs = 0

    def env(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(self.scratch, 'pyc'),
                   PYTHONUTF8='1', PYTHONHASHSEED='0',
                   PYTHONPATH=os.pathsep.join([REPO, os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'harness')]),
                   TLV_SCRATCH=self.scratch, TLV_REPO=REPO)
        return env

    # -- phase G -------------------------------------------------------------------------------
    def model_check(self, part):
        stim = []
        for num, conf in enumerate(part.mc):
            cfg = conf.get('thorough_cfg') if self.tier == 'thorough' and conf.get('thorough_cfg') else conf['cfg']
            res = run_tlc(conf['module'], cfg, os.path.join(self.scratch, 'mc_%s_%d' % (part.name, num)),
                          env=conf.get('env'), workers=conf.get('workers', 1 if conf.get('emit') else CORES),
                          heap=conf.get('heap', '6g'), timeout=conf.get('timeout', 3000 if self.tier == 'thorough' else 500))
            if res.rc != 0:
                raise MachineryError('model checking %s failed (rc=%s):\n%s' % (conf['module'], res.rc, tail(res.out)))
            self.states += res.distinct
            self.transitions += res.states
            emitted = res.tagged('STIM')
            stim.extend(emitted)
            self.mc_runs.append({'module': conf['module'], 'cfg': cfg.replace('\n', '; '), 'states_generated': res.states,
                                 'distinct': res.distinct, 'stimuli': len(emitted), 'wall_s': round(res.wall, 1)})
        return stim

    # -- phases E and V ------------------------------------------------------------------------
    def shard_job(self, part, num, cases):
        base = os.path.join(self.scratch, '%s_%02d' % (part.name, num))
        os.makedirs(base, exist_ok=True)
        job, log = os.path.join(base, 'cases.json'), os.path.join(base, 'log.ndjson')
        with open(job, 'w', encoding='utf-8') as handle:
            json.dump({'cases': cases, 'case_seconds': part.case_seconds}, handle)
        cwd = os.path.join(base, 'cwd')
        os.makedirs(cwd, exist_ok=True)
        budget = 3000 if self.tier == 'thorough' else 600
        with open(os.path.join(base, 'worker.out'), 'wb') as out:
            try:
                proc = subprocess.run([PYTHON, os.path.join(VERIF, 'lib', 'tlv', 'worker.py'), part.module, part.name, job, log],
                                      cwd=cwd, env=self.env(), stdout=out, stderr=subprocess.STDOUT,
                                      stdin=subprocess.DEVNULL, timeout=budget)
            except subprocess.TimeoutExpired:
                raise MachineryError('harness of %s exceeded %d s' % (part.name, budget))
        if proc.returncode != 0 or not os.path.exists(log + '.done'):
            with open(os.path.join(base, 'worker.out'), encoding='utf-8', errors='replace') as handle:
                raise MachineryError('harness worker of %s failed (rc=%s):\n%s' % (part.name, proc.returncode, tail(handle.read())))
        with open(log, encoding='utf-8') as handle:
            lines = handle.read().split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        bad, states, start, restarts = [], 0, 1, 0
        while start <= len(lines):
            res = run_tlc(part.trace, 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TDone\n' + part.cfg,
                          os.path.join(base, 'tlc'), env={'TLV_LOG': log, 'TLV_START': str(start)},
                          heap=part.heap, timeout=budget)
            states += res.states
            bad.extend((m['l'], m['c']) for m in res.tagged('BAD'))
            done = res.tagged('DONE')
            if res.rc == 0 and done and done[-1]['n'] == len(lines) + 1:
                break
            # The specification could not even interpret a record: that record is no behaviour of it.
            where = None
            for match in re.finditer(r'^(?:/\\ )?l = (\d+)', res.out, re.M):
                where = int(match.group(1))
            evaluation = 'TLC threw an unexpected exception' in res.out or 'Error: ' in res.out
            if res.rc in ('timeout', 0) or where is None or not evaluation or 'OutOfMemory' in res.out \
                    or 'StackOverflow' in res.out or where > len(lines) or not lines:
                raise MachineryError('trace validation by %s failed (rc=%s):\n%s' % (part.trace, res.rc, tail(res.out, 40)))
            if os.environ.get('TLV_DEBUG'):
                sys.stderr.write(res.out[res.out.find('Error:'):][:1500] + '\n')
            bad.append((where, ['uninterpretable']))
            start = where + 1
            while start <= len(lines) and '"k":"init"' not in lines[start - 1]:
                start += 1
            restarts += 1
            if restarts >= 3:
                break
        return num, lines, bad, states

    def conform(self, part, stim):
        cases = part.cases(self.tier, self.seed, stim)
        if not cases:
            raise MachineryError('no cases for ' + part.name)
        nshards = max(1, min(part.shards, len(cases)))
        shards = [[] for _ in range(nshards)]
        for index, case in enumerate(cases):
            shards[index % nshards].append((index, case))
        # One bad shard must not hide what the others found.
        errors = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=CORES) as pool:
            jobs = [pool.submit(self.shard_job, part, num, shard) for num, shard in enumerate(shards)]
            for job in jobs:
                try:
                    _num, lines, bad, states = job.result()
                except MachineryError as exc:
                    errors.append(exc)
                    continue
                self.account(part, cases, lines, bad, states)
        self.cases_run += len(cases)
        return errors

    def account(self, part, cases, lines, bad, states):
        self.transitions += max(0, states - 1)
        self.states += states
        self.records += len(lines)
        by_case = {}
        seen = set()
        parsed = {}
        bad_lines = {l for l, _ in bad}
        for num, line in enumerate(lines, 1):
            match = re.search(r'"op":"([^"]*)"', line)
            if match:
                self.ops[match.group(1)] = self.ops.get(match.group(1), 0) + 1
            idx = int(re.search(r'"ci":(\d+)}$', line).group(1))
            seen.add(idx)
            by_case.setdefault(idx, []).append(num)
            body = line[:line.rfind(',"ci":')]
            self.nontrivial.add(hashlib.md5(body.encode('utf-8')).digest()[:8])
            if num in bad_lines:
                parsed[num] = idx
        self.histories += len(seen)
        if len(self.samples) < 3 and lines:
            first = min(by_case)
            self.samples.append({'part': part.name, 'case': cases[first],
                                 'records': [json.loads(lines[n - 1]) for n in by_case[first][:3]]})
        for line, clauses in bad:
            if part.clauses:
                clauses = [c for c in clauses if re.match(part.clauses, c) or c == 'uninterpretable']
            if not clauses:
                continue
            idx = parsed.get(line, int(re.search(r'"ci":(\d+)}$', lines[line - 1]).group(1)))
            nums = by_case[idx]
            self.bad.append((part, cases[idx], sorted(clauses), [json.loads(lines[n - 1]) for n in nums if n <= line][-3:],
                             nums.index(line)))


def report(run, started, errors, known, replaying=False):
    """Print the verdict, write the replay files and the evidence; return the exit status."""
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(run.prop + '-') and not replaying:
            os.unlink(os.path.join(replay_dir, name))
    known_keys = dict(known)
    hit, fresh = {}, []
    for part, case, clauses, records, step in run.bad:
        key = case.get('key') if isinstance(case, dict) else None
        left = []
        for clause in clauses:
            name = '%s@%s' % (clause, key)
            if key is not None and name in known_keys:
                hit[name] = known_keys[name]
            else:
                left.append(clause)
        if left:
            fresh.append((part, case, left, records, step))
    for name, what in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (run.prop, what, name))
    shown = {}
    for part, case, clauses, records, step in fresh:
        sig = (part.name, tuple(clauses))
        if sig in shown:
            shown[sig][0] += 1
            continue
        path = os.path.join('evidence', 'replay', '%s-%d.json' % (run.prop, len(shown) + 1))
        shown[sig] = [1, path]
        if len(shown) > 25:
            continue
        if replaying:
            print('  last records: ' + json.dumps(records, ensure_ascii=False)[:20000])
        else:
          with open(os.path.join(VERIF, path), 'w', encoding='utf-8') as handle:
            json.dump({'property': run.prop, 'module': part.module, 'part': part.name, 'clauses': clauses, 'step': step,
                       'case': case, 'last_records': records}, handle, ensure_ascii=False, indent=1)
        detail = records[-1] if records else {}
        print('  clause(s) %s violated in part %s, step %d: op=%s args=%s exc=%s' % (
            ', '.join(clauses), part.name, step, detail.get('op'), json.dumps(detail.get('a'), ensure_ascii=False)[:300],
            str(detail.get('x'))[:200]))
        print('VIOLATION property=%s replay=%s' % (run.prop, path))
    evidence = {
        'property': run.prop, 'tier': run.tier, 'seed': run.seed, 'level': 'model_checking',
        'coverage': {
            'states': run.states, 'transitions': run.transitions,
            'traces_validated_against_impl': run.histories,
            'records_validated': run.records, 'distinct_records': len(run.nontrivial),
            'operations': dict(sorted(run.ops.items())),
            'model_checking_runs': run.mc_runs,
            'samples': run.samples,
        },
        'wall_s': round(time.time() - started, 1),
        'violations': len(fresh),
        'assumptions': ['TLC and the CommunityModules Json reader evaluate the specification correctly',
                        'the projection in /verif/harness reads the state through the public API faithfully'],
    }
    if not replaying:
      with open(os.path.join(VERIF, 'evidence', run.prop + '.json'), 'w', encoding='utf-8') as handle:
        json.dump(evidence, handle, ensure_ascii=False, indent=1)
    print('%s: %d histories, %d records validated, %d spec states, %d violation(s), %.1f s' % (
        run.prop, run.histories, run.records, run.states, len(fresh), time.time() - started))
    if fresh:
        return 1
    if errors:
        for exc in errors:
            sys.stderr.write('MACHINERY: %s\n' % exc)
        return 2
    return 0


def main(prop, tier, seed, registry, only_case=None):
    started = time.time()
    run = Run(prop, tier, seed)
    errors = []
    try:
        for module, name in registry[prop]:
            part = get_part(module, name)
            if only_case is not None:
                if (module, name) != only_case[:2]:
                    continue
                part.cases = lambda _tier, _seed, _stim: [only_case[2]]
                part.mc = []
            stim = run.model_check(part)
            errors.extend(run.conform(part, stim))
        return report(run, started, errors, load_known(prop), only_case is not None)
    except MachineryError as exc:
        errors.append(exc)
        if run.bad:
            return report(run, started, errors, load_known(prop), only_case is not None)
        sys.stderr.write('MACHINERY: %s\n' % exc)
        return 2
    finally:
        if os.environ.get('TLV_KEEP'):
            sys.stderr.write('scratch kept: %s\n' % run.scratch)
        else:
            shutil.rmtree(run.scratch, ignore_errors=True)


def get_part(module, name):
    import importlib
    mod = importlib.import_module(module)
    part = next(p for p in mod.PARTS if p.name == name)
    part.module = module
    return part
