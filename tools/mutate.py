#!/usr/bin/env python3-vt
"""
mutate.py OUT.jsonl [FILE ...]: breaks the library in many small ways, in scratch copies under /tmp, and lists which checks notice.

A development tool: no registered command uses it. A mutant that no check notices is either equivalent (or outside the judged
domains) or shows a gap in the checks.
"""
import ast
import copy
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
	'models.py': 'C02 C04 C06 C03 C08 C09 C10 C11 C07 C01 C37 C38 C05 C32',
	'utils.py': 'C12 C13 C14 C15 C16 C17 C18 C19 C41 C38',
	'importer.py': 'C01 C07 C40',
	'downloader.py': 'C05 C39 C40',
	'serial.py': 'C29 C30 C31 C32 C33',
	'poller.py': 'C32 C33 C29 C40',
	'exporter/mysql.py': 'C20 C21 C22 C23 C24 C26 C27 C25 C28 C38 C39 C40',
	'exporter/mysql.sql': 'C20 C22 C23 C24 C26 C25 C39 C42 C38',
	'exporter/wunderground.py': 'C34 C35 C36 C21 C40',
}
FIRST = (('heat_index', 'C13'), ('wind_chill', 'C14'), ('wet_bulb', 'C15'), ('dew_point', 'C15'), ('thw', 'C16'), ('thsw', 'C16'), ('degree_days', 'C17'), ('10_minute', 'C18'),
	('_append', 'C18'), ('all_record', 'C19'))
SQL = [('min(', 'max('), ('max(', 'min('), ('avg(', 'max('), ('sum(', 'max('), (' ASC', ' DESC'), (' DESC', ' ASC'), (' AND ', ' OR '), (' > ', ' >= '),
	(' >= ', ' > '), (' < ', ' <= '), (' <= ', ' < '), (' = %s', ' <> %s'), ('IS NOT NULL', 'IS NULL'), (' LIMIT 1', ''), ('_low', '_high'), ('_high', '_low'),
	('_outside', '_inside'), ('_inside', '_outside'), ('DAILY', 'WEEKLY'), ('MONTHLY', 'DAILY'), ('WEEKLY', 'DAILY'), ('_average', '_high'), ('ORDER BY timestamp_station ', '')]


def of_constant(v):
	if isinstance(v, bool):
		return [not v]
	if isinstance(v, int):
		return [v + 1, v - 1] if v else [1]
	if isinstance(v, float):
		return [v * 2]
	if isinstance(v, bytes):
		return [v[:-1] + bytes([(v[-1] + 1) % 256])] if v else []
	if isinstance(v, str):
		out = []
		if re.fullmatch(r'-?[0-9]*\.?[0-9]+', v):
			digits = [i for i, c in enumerate(v) if c.isdigit()]
			i = digits[-1]
			out.append(v[:i] + str((int(v[i]) + 1) % 10) + v[i + 1:])
		elif re.fullmatch(r'[<>]?[0-9xcbBhHiIlLsf]+', v) and len(v) <= 60:
			for i, c in enumerate(v):
				if c in 'bBhHiI':
					out.append(v[:i] + c.swapcase() + v[i + 1:])
		elif len(v) > 12 and ' ' in v:
			for a, b in SQL:
				for m in re.finditer(re.escape(a), v):
					out.append(v[:m.start()] + b + v[m.end():])
		elif v:
			out.append(v + 'x')
		return out
	return []


COMPARE = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
	ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BINARY = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
	ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.Pow: [ast.Mult]}


def schema_mutants(source):
	"""Columns of another type, missing keys."""
	lines = source.split('\n')
	for n, line in enumerate(lines):
		new = []
		m = re.match(r'    `(\w+)` (.*?)( COMMENT .*)$', line)
		if m:
			kind = m.group(2)
			d = re.search(r'decimal\((\d+),(\d+)\)', kind)
			if d:
				p, s = int(d.group(1)), int(d.group(2))
				for a, b in ((p - 1, s), (p, s - 1), (p - 1, s - 1), (p, s + 1)):
					new.append(kind.replace(d.group(0), 'decimal(%d,%d)' % (a, b)))
			for a, b in ((' unsigned', ''), (' NULL', ' NOT NULL'), (' NOT NULL', ' NULL'), ('smallint', 'tinyint'), ('bigint', 'int'), ('datetime', 'date'), ('time', 'datetime'), (" 'ESE',", ''),
					(" 'N', 'NNE'", " 'NNE', 'N'"), ("'WEEKLY', ", ''), (' null', ' NOT NULL'), ('decimal(4,1)', 'decimal(4,1) unsigned'), ('decimal(4,1)', 'smallint'), (' AUTO_INCREMENT', '')):
				if a in kind and not (a == ' NULL' and 'NOT NULL' in kind) and not ('unsigned' in b and 'unsigned' in kind) and not (a == 'time' and 'datetime' in kind):
					new.append(kind.replace(a, b, 1))
			new = ['    `%s` %s%s' % (m.group(1), k, m.group(3)) for k in new]
		elif 'UNIQUE INDEX' in line:
			new.append(line.replace('UNIQUE ', ''))
			columns = re.findall(r'`(\w+)`', line)[1:]
			for c in columns if len(columns) > 1 else []:
				new.append(re.sub(r'(, )?`%s`(?=[,)])' % c, '', line).replace('(, ', '('))
		for k in new:
			yield n + 1, '%s -> %s' % (line.strip()[:60], k.strip()[:80]), '\n'.join(lines[:n] + [k] + lines[n + 1:])


def mutants(source):
	tree = ast.parse(source)
	nodes = list(ast.walk(tree))
	docs = set()
	for n in nodes:
		if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
			docs.add(id(n.body[0].value))
			docs.add(id(n.body[0]))
	inside = {}
	for n in nodes:
		for c in ast.iter_child_nodes(n):
			inside[id(c)] = n

	def emit(n, what, change):
		new = copy.deepcopy(tree)
		m = list(ast.walk(new))[nodes.index(n)]
		change(m)
		try:
			return getattr(n, 'lineno', 0), what, ast.unparse(ast.fix_missing_locations(new))
		except Exception:
			return None

	for n in nodes:
		if id(n) in docs or isinstance(inside.get(id(n)), (ast.Import, ast.ImportFrom)):
			continue
		text = ''
		if isinstance(n, (ast.expr, ast.stmt)):
			text = ast.unparse(n)[:70].replace('\n', ' ')
		if isinstance(n, ast.Constant):
			for v in of_constant(n.value):
				yield emit(n, '%r -> %r' % (n.value, v), lambda m, v=v: setattr(m, 'value', v))
		elif isinstance(n, ast.Compare):
			for i, op in enumerate(n.ops):
				for new in COMPARE.get(type(op), []):
					yield emit(n, '%s: %s' % (text, new.__name__), lambda m, i=i, new=new: m.ops.__setitem__(i, new()))
		elif isinstance(n, (ast.BinOp, ast.AugAssign)):
			for new in BINARY.get(type(n.op), []):
				yield emit(n, '%s: %s' % (text, new.__name__), lambda m, new=new: setattr(m, 'op', new()))
		elif isinstance(n, ast.BoolOp):
			yield emit(n, '%s: and/or' % text, lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
		elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
			yield emit(n, '%s: drop not' % text, lambda m: setattr(m, 'op', ast.Not()) or setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand)))
		if isinstance(n, (ast.If, ast.IfExp, ast.While)):
			t = ast.unparse(n.test)
			yield emit(n, 'if %s: True' % t, lambda m: setattr(m, 'test', ast.Constant(True)))
			yield emit(n, 'if %s: False' % t, lambda m: setattr(m, 'test', ast.Constant(False)))
		if isinstance(n, ast.Call):
			for i in range(len(n.keywords)):
				yield emit(n, '%s: drop keyword %s' % (text, n.keywords[i].arg), lambda m, i=i: m.keywords.pop(i))
		if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
			yield emit(n, '%s: drop last' % text, lambda m: m.elts.pop())
			yield emit(n, '%s: swap first' % text, lambda m: m.elts.insert(0, m.elts.pop(1)))
		for field in ('body', 'orelse', 'finalbody'):
			block = getattr(n, field, None)
			if not isinstance(block, list) or isinstance(n, ast.Module):
				continue
			for i, s in enumerate(block):
				if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Break, ast.Continue, ast.If)) and id(s) not in docs and not isinstance(n, ast.ClassDef):
					yield emit(n, 'delete: %s' % ast.unparse(s)[:80].replace('\n', ' '), lambda m, i=i, field=field: getattr(m, field).__setitem__(i, ast.Pass()))


def work(arguments):
	k, file, line, what, source = arguments
	name = multiprocessing.current_process().name.split('-')[-1]
	base = '/tmp/mutants/%s' % name
	if not os.path.exists(base):
		os.makedirs(base)
		subprocess.check_call(['cp', '-a', '/repo', base + '/repo'])
		subprocess.check_call(['cp', '-a', VERIF, base + '/verif'])
	path = '%s/repo/weatherlink/%s' % (base, file)
	original = open(path, encoding='utf8').read()
	result = {'k': k, 'file': file, 'line': line, 'what': what, 'killed': None, 'errors': []}
	try:
		with open(path, 'w', encoding='utf8') as f:
			f.write(source)
		checks = CHECKS[file].split()
		lines = original.split('\n')
		around = [l for l in lines[:line] if l.startswith(('def ', '\tdef ', 'class '))] or ['']
		first = [c for k, c in FIRST if k in around[-1] and c in checks] if file == 'utils.py' else []
		for check in first + [c for c in checks if c not in first]:
			environment = dict(os.environ, WLV_REPO=base + '/repo', WLV_WORKERS='1', VERIF_SEED='1', **({} if os.environ.get('MUTATE_FULL') else {'WLV_FAST': '1'}))
			try:
				r = subprocess.run(['python3-vt', 'run.py', check], cwd=base + '/verif', env=environment, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
			except subprocess.TimeoutExpired:
				result['errors'].append(check + ' timeout')
				continue
			if r.returncode == 1 and b'VIOLATION property=' in r.stdout:
				result['killed'] = check
				break
			if r.returncode:
				result['errors'].append('%s exit %d: %s' % (check, r.returncode, r.stdout[-300:].decode('utf8', 'replace')))
				if b'cannot load' in r.stdout:
					result['killed'] = 'import'
					break
	finally:
		with open(path, 'w', encoding='utf8') as f:
			f.write(original)
	return result


def main(argv):
	out = argv[0]
	files = argv[1:] or list(CHECKS)
	jobs = []
	for file in files:
		source = open('/repo/weatherlink/' + file, encoding='utf8').read()
		for m in (schema_mutants if file.endswith('.sql') else mutants)(source):
			if m:
				jobs.append((len(jobs), file) + m)
	done = set()
	if os.path.exists(out):
		done = {json.loads(l)['k'] for l in open(out)}
	print(len(jobs), 'mutants,', len(done), 'done')
	with multiprocessing.Pool(int(os.environ.get("MUTATE_JOBS", "6"))) as pool, open(out, 'a') as f:
		for r in pool.imap_unordered(work, [j for j in jobs if j[0] not in done]):
			f.write(json.dumps(r) + '\n')
			f.flush()
	shutil.rmtree('/tmp/mutants')


if __name__ == '__main__':
	main(sys.argv[1:])
