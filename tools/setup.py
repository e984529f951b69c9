#!/usr/bin/env python3-vt
"""Checks that what the machinery needs is there: Hypothesis, and the library's dependencies."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from wlv import env  # noqa: E402

env.setup()

import hypothesis  # noqa: E402
import mysql.connector  # noqa: E402
import pytz  # noqa: E402
import requests  # noqa: E402
import six  # noqa: E402

print('hypothesis %s, requests %s, pytz %s, mysql.connector %s, six %s' % (
	hypothesis.__version__, requests.__version__, pytz.__version__, mysql.connector.__version__, six.__version__))
