"""Concrete search on the compiled crate (bounded; never counted as proved).

Builds /verif/harness (path dependency on the crate, its own workspace) beside the verifier and runs
`mqtt_check PROP`: fixed cases and random ones, compared with an independent reference decoder."""
import json
import os
import shutil
import signal
import subprocess
import threading


class Search:
    def __init__(self, verif, repo, prop, seed, tier, work, log):
        self.verif, self.repo, self.prop, self.seed, self.tier, self.work, self.log = verif, repo, prop, seed, tier, work, log
        self.known = []
        self.stats = {'bounded': True, 'cases': 0, 'checks': 0}
        self.proc = None
        self.out = os.path.join(work, 'build.log')
        self.tdir = os.path.join(verif, 'target', 'harness-' + prop)

    def start(self, seconds):
        """build and a first short search, in the background"""
        self.hit0, self.err = None, None
        self.start_build()

        def body():
            try:
                self.hit0 = self.run(seconds)
            except Exception as e:  # noqa: BLE001
                self.stats['not_run'] = repr(e)
        self.th = threading.Thread(target=body, daemon=True)
        self.th.start()

    def first(self):
        self.th.join(600)
        return self.hit0

    def start_build(self):
        src = os.path.join(self.verif, 'harness')
        if self.repo != '/repo':
            dst = os.path.join(self.work, 'harness')
            shutil.copytree(src, dst)
            t = os.path.join(dst, 'Cargo.toml')
            s = open(t).read().replace('"/repo"', '"%s"' % self.repo)
            open(t, 'w').write(s)
            src = dst
            self.tdir = os.path.join(self.work, 'harness-target')
        env = dict(os.environ, CARGO_TARGET_DIR=self.tdir, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
        env.pop('RUSTFLAGS', None)
        self.proc = subprocess.Popen(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=src, env=env,
                                     stdout=subprocess.DEVNULL, stderr=open(self.out, 'w'))

    def call(self, args, timeout):
        p = subprocess.Popen([os.path.join(self.tdir, 'release', 'mqtt_check'), self.prop] + args, cwd=self.work,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            o, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None, 'timeout'
        try:
            j = json.loads(o.decode('utf-8', 'replace').strip().split('\n')[-1])
        except (ValueError, IndexError):
            j = None
        return j, p.returncode

    def run(self, seconds):
        try:
            rc = self.proc.wait(timeout=400)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            rc = 'timeout'
        if rc != 0:
            self.stats['not_run'] = 'the harness does not build against this tree: ' + open(self.out).read()[:600]
            self.log('bounded search not available:', self.stats['not_run'][:300])
            return None
        src = os.path.join(self.repo, 'src')
        base = ['--src', src]
        j, rc = self.call(base + ['--seed', str(self.seed), '--seconds', str(seconds), '--threads', '6'], seconds + 200)
        if j is None and rc in (-signal.SIGABRT, -signal.SIGSEGV):
            j, rc = self.call(base + ['--seed', str(self.seed), '--seconds', str(seconds), '--threads', '6'], seconds + 200)
            if j is None and rc in (-signal.SIGABRT, -signal.SIGSEGV):
                return {'text': 'the process is ended by signal %d' % -rc, 'replay': self.replay('--seed %d --seconds %d' % (self.seed, seconds))}
        if j is None or 'harness' in j:
            self.stats['not_run'] = 'search ended with %s %s' % (rc, j)
            self.log('bounded search:', self.stats['not_run'])
            return None
        self.stats.update(cases=j['cases'], checks=j['checks'], seconds=seconds, literals=j['literals'])
        if not j['hit']:
            return None
        args = '--case %s' % j['case']
        k, _ = self.call(base + args.split(), 200)
        self.stats['replayed'] = bool(k and k.get('hit'))
        return {'text': j['hit'], 'replay': self.replay(args)}

    def replay(self, args):
        return 'cd /verif/harness && CARGO_TARGET_DIR=/verif/target/replay cargo run --release --offline --quiet -- %s %s' % (self.prop, args)
