"""sweep.py fixes|seeds [NAME...]: in scratch copies, undoes each repair of known_findings.json (or applies each planted bug) and runs the
check of its property, which has to exit 1.  Development aid; no check uses it."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def job(name, prop, change):
    scratch = tempfile.mkdtemp(prefix='sweep-')
    try:
        repo, verif = os.path.join(scratch, 'repo'), os.path.join(scratch, 'verif')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        os.mkdir(verif)
        for d in ('bin', 'harness', 'spec', 'known_findings.json'):
            subprocess.check_call(['cp', '-a', os.path.join(HERE, d), verif])
        done = subprocess.run(change, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if done.returncode:
            return name, prop, 'cannot be applied: ' + done.stdout.strip().splitlines()[-1]
        p = subprocess.run([os.path.join(verif, 'bin', 'check'), prop], env=dict(os.environ, VERIF_REPO=repo), cwd=verif,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, prop, 'caught' if p.returncode == 1 else 'NOT CAUGHT (rc %s)\n%s' % (p.returncode, p.stdout[-800:])
    finally:
        shutil.rmtree(scratch)


jobs = []
if sys.argv[1] == 'fixes':
    for line in json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']:
        prop, commit, what = re.match(r'fixed: property=(\S+) (\S+) (.*)', line).groups()
        jobs.append((commit + ' ' + what[:60], prop, ['git', 'revert', '--no-commit', commit]))
else:
    for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        prop = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json')))['property']
        jobs.append((name, prop, ['git', 'apply', os.path.join(HERE, 'seeded', name, 'patch.diff')]))
if sys.argv[2:]:
    jobs = [j for j in jobs if any(j[0].startswith(x) for x in sys.argv[2:])]
with concurrent.futures.ThreadPoolExecutor(2) as pool:
    for name, prop, result in pool.map(lambda j: job(*j), jobs):
        print(prop, name, result, flush=True)
