"""Loads the package and runs obligations."""
import os, sys, time, traceback
from .core import *
from .interp import *
from . import models as MD, libs

MODULES = ['utils', 'algorithms', 'receipt', 'sigsys', 'key_store', 'depparser', 'depexport',
    'verification_state', 'verify_receipt', 'verify', 'cashreg', 'url_receipt_helpers']
HERE = os.path.dirname(os.path.abspath(__file__))

class LoadCtx(Ctx): pass

def load(repo, modules=MODULES, specs=True):
    I = Interp(repo, MD.Models())
    I.contracts['utils.init_class_overrides'] = lambda I, f, a, k: None
    ex = Explorer()
    ex.lit_hook = MD.lit_hook; ex.eq_hook = MD.eq_hook
    I.ctx = Ctx(ex, [])
    I.load_all(modules)
    if specs: I.load_source('spec', os.path.join(HERE, 'spec.py'))
    I.snapshot()
    return I
