"""
Runs a function in a forked child (a pristine process: the parent has imported the
library but used none of it) and returns its JSON result.
"""
import json
import os
import signal
import traceback


class ChildDied(Exception):
    pass


def call(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = {'ok': fn()}
            except BaseException as e:
                out = {'error': repr(e), 'trace': traceback.format_exc()[-2500:]}
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    try:
        out = json.loads(b''.join(chunks).decode())
    except ValueError:
        raise ChildDied('the simulated process ended without a result')
    if 'error' in out:
        raise ChildDied(out['error'] + '\n' + out['trace'])
    return out['ok']
