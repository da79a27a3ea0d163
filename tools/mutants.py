#!/usr/bin/env python3
"""Plants small mechanical changes in copies of /repo, keeps those that build and pass the stable tests, and runs the checks of
the properties each file serves against them. usage: mutants.py OUT.jsonl [-n PER_FILE] [-j WORKERS] [-f FILE]... [--seed N]
Survivors (uncaught) are either changes no property speaks about or gaps in the checks. Development aid, not a check."""
import argparse, json, os, pathlib, queue, random, shutil, subprocess, sys, threading, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
MAP = {
 'client.go': 'C02 C06 C04 C05 C01 C03', 'clienterror.go': 'C04 C07', 'httperror.go': 'C04', 'error.go': 'C07 C08 C04',
 'gotsrpc.go': 'C02 C01 C25 C05 C10 C09 C11 C22 C20 C17', 'transport.go': 'C02 C12 C13 C05 C03', 'timeext.go': 'C12', 'unionext.go': 'C13',
 'responsewriter.go': 'C10 C09', 'stats.go': 'C09', 'instrumentation.go': 'C09 C15', 'monitor.go': 'C11', 'prometheus/prometheus.go': 'C15',
 'http.go': 'C04 C06 C01', 'go.go': 'C20 C14 C01 C10 C09 C02', 'servicereader.go': 'C20 C19 C17 C24 C13', 'typereader.go': 'C18 C17 C08',
 'typescript.go': 'C18 C24 C16 C17', 'typscriptclient.go': 'C19', 'build.go': 'C16 C21 C22 C17 C20', 'config/config.go': 'C23 C22', 'code.go': 'C16 C19 C20',
 'cmd/gotsrpc/gotsrpc.go': 'C21', 'model.go': 'C18 C17'}

def sh(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), timeout=timeout, env=env, cwd=cwd, capture_output=True, text=True, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def worker_dirs(i):
    w = pathlib.Path(f'/tmp/mut/{i}')
    (w / 'src').mkdir(parents=True)
    subprocess.check_call(['rsync', '-a', '--exclude=.git', '/repo/', str(w / 'repo/')])
    for n in ('env.sh', 'test.sh'):
        t = pathlib.Path('/opt/vp', n).read_text()
        t = t.replace('/opt/vp/env.sh', f'{w}/env.sh').replace('/opt/vp/work', f'{w}/work').replace('/opt/vp/src', f'{w}/src')
        t = t.replace('/repo', f'{w}/repo').replace('(cd client && timeout 120 tsc --build)', 'true')
        (w / n).write_text(t)
    return w

def tests(w):
    rc, out = sh(['bash', str(w / 'test.sh'), str(w / 'out.json')], 240)
    try:
        passed = json.load(open(w / 'out.json'))['passed']
    except Exception:
        return False
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return all(t in passed for t in stable)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('-n', type=int, default=20); ap.add_argument('-j', type=int, default=3)
    ap.add_argument('-f', action='append'); ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    subprocess.check_call(['go', 'build', '-o', '/tmp/mut-tool', '.'], cwd=ROOT / 'tools/mutate', env=dict(os.environ, GO111MODULE='off'))
    rnd, todo = random.Random(a.seed), []
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l); done.add((r['file'], r['start'], r['end'], r['text']))
    for f in a.f or MAP:
        ms = [json.loads(l) for l in subprocess.check_output(['/tmp/mut-tool', str(REPO / f)], text=True).splitlines()]
        rnd.shuffle(ms)
        todo += [dict(m, file=f) for m in ms[:a.n] if (f, m['start'], m['end'], m['text']) not in done]
    rnd.shuffle(todo)
    q = queue.Queue()
    for m in todo: q.put(m)
    print(len(todo), 'mutants', flush=True)
    lock, out = threading.Lock(), open(a.out, 'a')

    def run(i):
        w = worker_dirs(i)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            src = (REPO / m['file']).read_bytes()
            (w / 'repo' / m['file']).write_bytes(src[:m['start']] + m['text'].encode() + src[m['end']:])
            res, t0 = {}, time.time()
            env = dict(os.environ, VERIF_REPO=str(w / 'repo'), VERIF_SEED='1', VERIF_TIER='quick')
            rc, o = sh(f'. {w}/env.sh; go build ./...', 120)
            if rc: verdict = 'nobuild'
            elif not tests(w): verdict = 'tests'
            else:
                verdict = 'SURVIVED'
                for c in MAP[m['file']].split():
                    rc, o = sh(['python3', str(ROOT / 'run.py'), c], 600, env, str(ROOT))
                    res[c] = rc
                    if rc == 1: verdict = 'caught ' + c; break
                    if rc not in (0, 1): verdict = f'rc{rc} {c}: ' + o[-200:]
            (w / 'repo' / m['file']).write_bytes(src)
            with lock:
                old = src[m['start']:m['end']].decode(errors='replace')
                out.write(json.dumps(dict(m, old=old[:200], verdict=verdict, rc=res, secs=round(time.time() - t0))) + '\n'); out.flush()
    ths = [threading.Thread(target=run, args=(i,)) for i in range(a.j)]
    shutil.rmtree('/tmp/mut', ignore_errors=True)
    for t in ths: t.start()
    for t in ths: t.join()
    shutil.rmtree('/tmp/mut', ignore_errors=True)
main()
