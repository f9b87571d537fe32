"""State of the process that is not pymech's."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np


def world():
    """Process-wide state that is not pymech's."""
    st = np.random.get_state()
    return dict(
        numpy_random=(st[0], st[1].tobytes(), st[2:]), random=random.getstate(), errstate=np.geterr(), cwd=here(),
        environ=dict(os.environ), print_options=repr(np.get_printoptions()), locale=locale.setlocale(locale.LC_ALL), umask=umask(),
        decimal=repr(decimal.getcontext()), stdout=id(sys.stdout), stderr=id(sys.stderr), recursion=sys.getrecursionlimit(),
        gc=gc.isenabled(), logging=[(n, logging.getLogger(n).level, len(logging.getLogger(n).handlers)) for n in ("", "pymech")], disabled=logging.root.manager.disable, path=list(sys.path), sigint=repr(signal.getsignal(signal.SIGINT)), warnings=len(warnings.filters),
    )


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def here():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return "removed"
