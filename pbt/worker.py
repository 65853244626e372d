"""Answers requests in a process of its own, with another hash seed; each request in a fresh fork.

A request is a JSON line {'op': name, ...}; the answer is a JSON line. In the parent:
ask(seed, request) -> answer, or Violation-free HarnessError when the worker died."""
import json
import os
import subprocess
import sys

from pbt.core import VERIF, HarnessError

_workers = {}


def ask(seed, req):
    key = (os.getpid(), seed)
    p = _workers.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.Popen(['/opt/venv/bin/python', '-m', 'pbt.worker'], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, env=env, cwd=VERIF, text=True, encoding='utf-8')
        _workers[key] = p
    p.stdin.write(json.dumps(req) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError('worker process ended')
    ans = json.loads(line)
    if 'harness' in ans:
        raise HarnessError(ans['harness'])
    return ans


def outcome(f):
    """['ok', value] or ['raised', type, text] of a call into pycaption"""
    try:
        return ['ok', f()]
    except Exception as e:  # noqa: B902
        return ['raised', type(e).__name__, str(e)]


def op_write(req):
    from pbt.props import c09
    return {'out': c09.pristine_write(req['src'], req['writer'])}


def op_read(req):
    from pbt import docs, model
    return {'out': outcome(lambda: model.d_set(docs.read(req['doc'])))}


OPS = {'write': op_write, 'read': op_read}


def serve():
    import pycaption  # noqa: F401
    from pbt import docs, model, writers  # noqa: F401
    from pbt.props import c09  # noqa: F401
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                ans = OPS[req['op']](req)
            except BaseException as e:  # noqa: B902
                ans = {'harness': f'{type(e).__name__}: {e}'}
            data = json.dumps(ans).encode()
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.write((data.decode() or json.dumps({'harness': 'no answer'})) + '\n')
        out.flush()


if __name__ == '__main__':
    serve()
