"""
Loads the library under test from the repository's working tree.  The locks the
library may create at import time are simulated ones, so the scheduler owns them.
"""
import importlib
import os
import sys
import threading

REPO = os.environ.get('ASN1_REPO', '/repo')
MODULES = ['core', 'algos', 'keys', 'x509', 'crl', 'ocsp', 'csr', 'cms', 'tsp', 'pkcs12', 'pdf', 'pem', 'parser', 'util']
PKG_DIR = os.path.join(REPO, 'asn1crypto') + os.sep

_mods = {}


def load_all(mods=None):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import sched
    real = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = sched.SimLock, sched.SimRLock
    try:
        for m in (mods or MODULES):
            _mods[m] = importlib.import_module('asn1crypto.' + m)
    finally:
        threading.Lock, threading.RLock = real
    where = os.path.dirname(os.path.abspath(_mods[(mods or MODULES)[0]].__file__)) + os.sep
    if where != os.path.abspath(PKG_DIR) + os.sep:
        raise RuntimeError('asn1crypto was imported from %s' % where)


def mod(name):
    if name not in _mods:
        load_all([name])
    return _mods[name]


def core():
    if 'core' not in _mods:
        load_all()
    return _mods['core']


def cls(path):
    m, n = path.split('.')
    return getattr(mod(m), n)
