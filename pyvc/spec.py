"""Specification functions, executed by the verifier next to the code under
contract.  Names starting with S_ are primitives supplied by the verifier
(proofs/common.py)."""

HEADER = '{"alg":"ES256"}'

def parse_fields(payload):
    """twelve fields of a receipt payload (without signature) or None"""
    segs = payload.split('_')
    if len(segs) != 13: return None
    return segs_ok(segs)

def segs_ok(segs):
    if segs[0] != '': return None
    az = segs[1].split('-')
    if len(az) != 2: return None
    if az[0] != 'R1': return None
    f = [az[1]] + segs[2:13]
    if f[9].replace('=', '') == '': return None
    if not S_fields_ok(f): return None
    if len(S_dec_std(f[11])) != 8: return None
    return f

def parse_jws(text):
    """(fields, header, signature) of a receipt in JWS form, or None"""
    if not S_is_text(text): return None
    segs = text.split('.')
    if len(segs) != 3: return None
    h = S_dec_url(segs[0])
    if h is None or h != HEADER.encode('utf-8'): return None
    p = S_dec_url(segs[1])
    if p is None: return None
    p = S_utf8(p)
    if p is None: return None
    if S_dec_url(segs[2]) is None: return None
    f = parse_fields(p)
    if f is None: return None
    return (f, HEADER, segs[2])

def parse_basic(text):
    if not S_is_text(text): return None
    segs = text.split('_')
    if len(segs) != 14: return None
    sig = S_dec_std(segs[13])
    if sig is None: return None
    f = segs_ok(segs[0:13])
    if f is None: return None
    return (f, HEADER, S_enc_url(sig))

def parse_ocr(text):
    if not S_is_text(text): return None
    segs = text.split('_')
    if len(segs) != 14: return None
    for i in (10, 12, 13):
        d = S_dec_b32(segs[i])
        if d is None: return None
        segs[i] = S_enc_std(d)
    return parse_basic('_'.join(segs))

def parse_csv(text):
    segs = [s.strip() for s in text.split(';')]
    return S_parse_basic('_' + '_'.join(segs))

def serial_ids(serial):
    """key IDs a certificate serial may stand for: its value read as
    hexadecimal and as decimal number, in lower-case hexadecimal"""
    if S_starts(serial, '-'): serial = serial[1:]
    out = []
    for base in (16, 10):
        v = S_int(serial, base)
        if v is not None: out.append(S_hex(v))
    return out

def url_hash_of(url):
    """fragment, or last maximal run of exactly 11 URL-safe Base64 characters"""
    parts = url.split('#')
    if len(parts) > 1: return parts[1]
    return S_lastrun(url)
