"""seeds.py [--all] [ID...]: tries the planted bugs in seeded/ on scratch copies of /repo.

For each it prints whether the demonstration tells the trees apart and which checks catch it: the check of its own property, or
with --all every check. With --all and no IDs the table in tools/seeds.md is rewritten.
"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(command, **arguments):
	return subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **arguments)


def attempt(name, every):
	folder = os.path.join(VERIF, 'seeded', name)
	meta = json.load(open(os.path.join(folder, 'meta.json')))
	scratch = tempfile.mkdtemp(prefix='seed-')
	try:
		repo = os.path.join(scratch, 'repo')
		shutil.copytree('/repo', repo, symlinks=True)
		verif = os.path.join(scratch, 'verif')
		shutil.copytree(VERIF, verif, symlinks=True, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', 'replays'))
		clean = run(['bash', os.path.join(folder, 'demo.sh')], cwd=repo).returncode
		run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=repo, check=True)
		patched = run(['bash', os.path.join(folder, 'demo.sh')], cwd=repo).returncode
		checks = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(VERIF, 'checks', 'c[0-9]*.py'))) if every else [meta['property']]
		caught, odd = [], []
		for c in checks:
			environment = dict(os.environ, WLV_REPO=repo, WLV_WORKERS='2')
			if c != meta['property']:
				environment['WLV_FAST'] = '1'
			code = run([sys.executable, 'run.py', c], cwd=verif, env=environment).returncode
			if code == 1:
				caught.append(c)
			elif code:
				odd.append('%s: exit %d' % (c, code))
		return name, meta, clean == 0 and patched not in (0, 124), caught, odd
	finally:
		shutil.rmtree(scratch)


def main():
	names = [a for a in sys.argv[1:] if a != '--all']
	every = '--all' in sys.argv
	results = []
	with concurrent.futures.ThreadPoolExecutor(4) as pool:
		for r in pool.map(lambda n: attempt(n, every), names or sorted(os.listdir(os.path.join(VERIF, 'seeded')))):
			name, meta, good, caught, odd = r
			results.append(r)
			print('%-22s %s demo %-4s %-7s %s %s' % (name, meta['property'], 'ok' if good else 'BAD',
				'CAUGHT' if meta['property'] in caught else 'MISSED', ' '.join(caught), odd or ''), flush=True)
	if every and not names:
		with open(os.path.join(VERIF, 'tools', 'seeds.md'), 'w') as f:
			f.write('## Planted bugs\n\nEach is in `seeded/`; `tools/seeds.py --all` made this table. The check of the bug\'s own property ran as '
				'registered (quick), the others in fast mode (a third of their cases).\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n')
			for name, meta, _, caught, odd in results:
				own = [c + ' (own)' for c in caught if c == meta['property']]
				f.write('| %s | %s | %s | %s |\n' % (name, meta['property'], meta['needs'],
					', '.join(own + [c for c in caught if c != meta['property']]) or 'nothing'))


if __name__ == '__main__':
	main()
