"""Harness worker: runs cases against the real code and logs what was observed.

usage: worker.py PART_MODULE PART_NAME CASES.json OUT.ndjson

Runs under the repository's interpreter. Every case is a JSON object made by the driver; the
part's run(case, emit) executes it and emits one record per observed step.  A case that does not
return in time is logged as such (record kind "hang"); an exception that escapes the harness itself
is a machinery error, not a verdict.
"""
import importlib
import json
import logging
import os
import resource
import signal
import sys
import traceback


class CaseTimeout(BaseException):
    pass


def _on_alarm(_sig, _frm):
    raise CaseTimeout()


def plain(value):
    """What TLC's JSON reader can take; anything else becomes a marked string."""
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, bool) or (isinstance(value, int) and abs(value) < 1 << 31):
        return value
    if isinstance(value, str):
        return value.encode('utf-8', 'backslashreplace').decode('utf-8')
    return '~%s:%s' % (type(value).__name__, str(value)[:200])


def main():
    part_module, part_name, cases_file, out_file = sys.argv[1:5]
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    module = importlib.import_module(part_module)
    part = next(p for p in module.PARTS if p.name == part_name)
    with open(cases_file, encoding='utf-8') as handle:
        job = json.load(handle)
    cases, limit = job['cases'], job['case_seconds']
    signal.signal(signal.SIGALRM, _on_alarm)
    hangs = 0
    lines = 0
    with open(out_file, 'w', encoding='utf-8') as out:
        for index, case in cases:
            records = []
            emit = records.append
            hang = False
            try:
                signal.setitimer(signal.ITIMER_REAL, limit)
                try:
                    part.run(case, emit)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except CaseTimeout:
                hang = True
            except MemoryError:
                hang = True
            except Exception:  # pylint: disable=broad-except
                # The case could not even be set up or read back: no behaviour of the specification.
                trouble = traceback.format_exc().strip().split('\n')
                records.append({'k': 'hang', 'op': 'broken', 'x': ' / '.join(trouble[-3:])[-600:], 'a': {}})
            if hang:
                hangs += 1
                records.append({'k': 'hang', 'op': 'hang', 'x': 'no return in time', 'a': {}})
            for rec in records:
                rec['ci'] = index
                out.write(json.dumps(plain(rec), ensure_ascii=False, separators=(',', ':')))
                out.write('\n')
                lines += 1
            if hangs >= 3:
                break
    with open(out_file + '.done', 'w', encoding='utf-8') as handle:
        json.dump({'lines': lines, 'hangs': hangs}, handle)


if __name__ == '__main__':
    try:
        main()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        sys.exit(3)
