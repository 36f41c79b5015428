import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']
EXT = ['html', 'htm', 'css', 'csv', 'json', 'txt', 'xml', 'png', 'jpg', 'jpeg', 'gif', 'svg', 'pdf', 'zip', 'mp4', 'mp3', 'gz', '7z', 'woff2', 'tar', 'none', '', 'htmlx', 'h', 'tx']
POINTS = [65, 37, 43, 38, 61, 32, 0, 127, 128, 255, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111]


def w(s):
    s = s.encode('utf-8') if isinstance(s, str) else bytes(s)
    return '.'.join(map(str, s)) if s else '-'


def case(r, s):
    return ''.join(r.choice([c, c.upper()]) for c in s)


def data(r, n):
    """Bytes: UTF-8, or nearly so."""
    b = b''.join(chr(r.choice(POINTS + [r.randrange(55296), r.randrange(57344, 1114112), r.randrange(97, 123)])).encode() for _ in range(n))
    if b and r.random() < 0.4:
        i = r.randrange(len(b))
        b = r.choice([b[:i] + b[i + 1:], b[:i] + bytes([r.randrange(256)]) + b[i + 1:], b[:i] + r.choice([b'\xed\xa0\x80', b'\xc0\x80', b'\xe0\x9f\xbf', b'\xf4\x90\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xff', b'\x80']) + b[i:]])
    return b


def encode(r, b, sure=True):
    out = ''
    for c in b:
        ch = chr(c)
        if ch == ' ' and r.random() < 0.5:
            out += '+'
        elif ch.isalnum() and c < 128 and r.random() < 0.6:
            out += ch
        else:
            out += '%' + case(r, '%02x' % c)
    if not sure and r.random() < 0.5:
        i = r.randrange(len(out) + 1)
        out = out[:i] + r.choice(['%', '%4', '%G1', '%1g', '%%', '%+1', '% 1', '%0x', '%-1', '%\u0665', '\u00e9', '\x00']) + out[i:]
    return out


def script(r, i):
    ops = []
    for _ in range(6):
        d = encode(r, data(r, r.choice([0, 1, 2, 4, 9])), False)
        ops.append(sc.op('decode', w(d), r.randrange(2), r.randrange(2)))
        ps = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = encode(r, data(r, r.choice([1, 1, 2, 3])), r.random() < 0.95) or 'k'
            v = encode(r, data(r, r.choice([0, 1, 3])), r.random() < 0.95)
            ps.append(r.choice([k + '=' + v] * 8 + [k, k + '=', k + '=' + v + '=x', '=' + v, k + '==' + v, '']))
        if ps and r.random() < 0.3:
            ps.append(r.choice(ps))
        ops.append(sc.op('split', w('&'.join(ps)), r.randrange(2), r.randrange(2)))
        p = r.choice(['', '/', '/a/', 'x.', '.', 'a.b/', 'caf\u00e9/']) + r.choice(['', 'index', 'a.b', 'x']) + r.choice(['.', '.', '.', '', '..']) + case(r, r.choice(EXT)) + r.choice(['', '', '', '', '.', '/', 'x', ' ', '.txt'])
        ops.append(sc.op('media', '-', w(p)))
        t = {e: 'type/%d' % n for n, e in enumerate(r.sample([e for e in EXT if e], r.randrange(5)))}
        if t:
            ops.append(sc.op('media', ','.join(w(k) + ':' + w(v) for k, v in t.items()), w(p if r.random() < 0.5 else 'f.' + case(r, r.choice(list(t))))))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C32', 'model_checking')
    exe = build_plain(chk.work, 'urldata.cpp', extra_units=[(REPO + '/src/main/cpp/Balau/Network/Utilities/MimeTypes.cpp', 'mime.o', PLAIN)], libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'UrlDataGen.tla')
    r = random.Random(SEED * 7919 + 32)
    lines = [o for s in gen for o in s.ops]
    scripts = [sc.Script('g%d' % k, lines[k:k + 60]) for k in range(0, len(lines), 60)]
    scripts += [script(r, i) for i in range(4000 if THOROUGH else 600)]
    scripts.append(sc.Script('known', [sc.op('media', '-', w('/a.' + e)) for e in EXT] + [sc.op('media', '-', w('/a.B.' + e.upper())) for e in EXT]))
    res = sc.run_check(chk, exe, scripts, 'UrlDataTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
