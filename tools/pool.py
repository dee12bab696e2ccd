"""Runs the checks on edited scratch copies of /repo, several at a time (each worker with its own copy and fact cache)."""
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import queue
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAST = 'checked: '


def sh(cmd, env=None):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)


class Pool:
    def __init__(s, n=7, git=False):
        s.base = '/tmp/pool%d' % os.getpid()
        s.q = queue.Queue()
        s.n = n
        for i in range(n):
            w = '%s/%d' % (s.base, i)
            sh('mkdir -p %s/r %s/c && rsync -a --delete --exclude target --exclude .git /repo/ %s/r/ && rsync -a --exclude facts %s/.cache/ %s/c/' % (w, w, w, R, w))
            if git:
                sh('cd %s/r && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x' % w)
            s.q.put(w)
        s.ex = ThreadPoolExecutor(n)

    def run(s, edit, undo, props, done):
        """edit(dir) -> context or None; then check; undo(dir, context); done(output, rc)"""
        def job():
            w = s.q.get()
            try:
                x = edit(w + '/r')
                if x is None:
                    return
                env = dict(os.environ, VREPO=w + '/r', VERIF_EVIDENCE=w + '/ev', VCACHE=w + '/c')
                r = sh('python3 %s/engine/check.py %s' % (R, ' '.join(props)), env)
                undo(w + '/r', x)
                done(r.stdout.decode(), r.returncode)
            except Exception as e:
                print('pool:', repr(e), flush=True)
            finally:
                s.q.put(w)
        s.ex.submit(job)

    def close(s):
        s.ex.shutdown(wait=True)
        shutil.rmtree(s.base, ignore_errors=True)
