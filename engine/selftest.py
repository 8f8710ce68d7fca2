"""setup: the provers answer, the engine imports, and no negative control is accepted"""
import os, re, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import concurrent.futures as cf
import z3, ir, sym, models, prove, ring, ideal, config, worker
x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat


def one(a):
    r = worker.verify(a[0], [a[1]], 60)
    bad = [o['label'] for o in r['obligations'] if o['status'] != 'proved'] + ['cover ' + k for k, v in r['covers'].items() if v == 'unsat']
    false_ok = all('true' not in b for b in bad)
    return a[0], r['status'], r.get('reason'), bad, bool(bad) and false_ok


def main():
    src = '/verif/contracts/selftest.cpp' if os.path.exists('/verif/contracts/selftest.cpp') else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts/selftest.cpp')
    d = tempfile.mkdtemp(prefix='vf_self')
    try:
        ll = os.path.join(d, 's.ll')
        subprocess.run(['clang++-18'] + config.FLAGS + config.IRFLAGS + ['-o', ll, src], check=True)
        names = ['NEG__' + n for n in re.findall(r'^VF_CONTRACT\(NEG, (\w+)\)', open(src).read(), re.M)]
        with cf.ProcessPoolExecutor(8) as ex:
            res = list(ex.map(one, [(n, ll) for n in names]))
        ok = True
        for n, st, why, bad, good in res:
            print('%-28s %-12s %s %s' % (n, st, 'rejected' if good else 'ACCEPTED OR UNDECIDED', bad or why))
            ok = ok and good and st == 'ok'
        print('verifier ready' if ok else 'verifier self-test FAILED')
        return 0 if ok else 1
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    sys.exit(main())
