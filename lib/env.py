"""Locates the code under test and imports it (never a copy)."""
import os, sys, gettext, builtins, warnings
warnings.simplefilter('ignore')
REPO = os.environ.get('RKSV_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.pop('RKSV_DEP_CHUNKSIZE', None)
os.environ.pop('RKSV_STATE_RECEIPT_IDS', None)
if not hasattr(builtins, '_'):
    gettext.install('rktool', os.path.join(REPO, 'lang'))
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

def mods():
    from librksv import (algorithms, cashreg, depexport, depparser, key_store,
        receipt, sigsys, url_receipt_helpers, utils, verification_state,
        verify, verify_receipt)
    return dict(locals())
