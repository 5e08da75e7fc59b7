"""Runs a function in a forked child process and returns its JSON result.

Used where the property is about cold process state (lazy caches): the parent imports the library but never uses it, so
every child starts from the same cold state.
"""
import json
import os
import signal
import sys


class ChildDied(OSError):
    pass


def run(function, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = json.dumps({'ok': function(*args)}, default=repr)
            except BaseException as e:
                import traceback
                from mc import core
                data = json.dumps({'error': traceback.format_exc()[-3000:], 'repo': core.from_repo(e),
                                   'timeout': isinstance(e, core.CaseTimeout),
                                   'environment': isinstance(e, core.ENVIRONMENT)})
            data = data.encode('utf-8', 'surrogatepass')
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    try:
        os.close(w)
        parts = []
        while True:
            part = os.read(r, 1 << 16)
            if not part:
                break
            parts.append(part)
    except BaseException:
        os.kill(pid, signal.SIGKILL)     # our own child (watchdog fired)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    from mc import core
    text = b''.join(parts).decode('utf-8', 'surrogatepass')
    if not text:
        raise core.Mismatch('the process running the case died', 'a result', 'no result')
    result = json.loads(text)
    if 'error' in result:
        if result['environment']:
            raise ChildDied(result['error'])
        raise core.Mismatch('unexpected failure %s the library' % ('from' if result['repo'] else 'while using'), 'no failure', result['error'])
    return result['ok']
