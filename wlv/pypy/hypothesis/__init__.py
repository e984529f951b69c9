"""Stands for Hypothesis where a process only judges cases that another one generated (PyPy has no Hypothesis here)."""
import sys


class _Anything(object):
	def __call__(self, *args, **kwargs):
		return self

	def __getattr__(self, name):
		return self

	def __or__(self, other):
		return self


strategies = _Anything()
sys.modules['hypothesis.strategies'] = strategies


def __getattr__(name):
	return strategies
