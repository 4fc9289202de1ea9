"""Runs commands on scratch copies of /repo and /verif, bind-mounted over the real ones in a user namespace of their own."""
import os, subprocess, shutil, tempfile


class Box:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='box')
        for p in ('/repo', '/verif'):
            subprocess.run(['cp', '-a', p, self.d + p], check=True)
        subprocess.run(['git', '-C', self.d + '/repo', 'checkout', '-q', '--', '.'], check=True)

    def run(self, cmd, cwd='/verif', timeout=900):
        c = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd %s && %s' % (self.d, self.d, cwd, cmd)
        try:
            return subprocess.run(['unshare', '-Urmpf', '--kill-child', 'sh', '-c', c], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return subprocess.CompletedProcess(cmd, 124, '', 'timeout')

    def apply(self, edits):
        for f, o, n in edits:
            p = self.d + '/repo/' + f
            t = open(p).read()
            if t.count(o) != 1:
                return 'OLD count %d %s' % (t.count(o), f)
            open(p, 'w').write(t.replace(o, n))

    def diff(self):
        return subprocess.run(['git', '-C', self.d + '/repo', 'diff'], capture_output=True, text=True).stdout

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)
