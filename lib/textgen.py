"""Random texts of the formats that the library reads."""

WORD = ['a', 'b', 'x.y', 'file.serve', 'é', '漢字', '😀', '1', '-', 'C', '/', '"', "'", ';', ',', '[', ']', '%', '$', '~', 'longer word', 'http']
ESC = ['\\{', '\\}', '\\@', '\\:', '\\=', '\\#', '\\!', '\\\\', '\\ ', '\\\t', '\\n', '\\t', '\\é', '\\😀', '\\a']
BREAK = ['\n', '\n', '\n', '\n', '\r\n', '\r', '\n\r']


def cont(r):
    return '\\' + r.choice(BREAK) + r.choice(['', ' ', '\t', '  \t '])


def blanks(r, least=0):
    return ''.join(r.choice(' \t') for _ in range(r.choice([0, 0, 1, 1, 2, 4]) if not least else r.choice([1, 1, 2])))


def key(r):
    out = ''
    for j in range(r.choice([1, 1, 1, 2, 3])):
        out += r.choice([r.choice(WORD).replace(' ', ''), r.choice(WORD).replace(' ', ''), r.choice(ESC), cont(r) if r.random() < 0.3 else 'k', '#' if j else 'z', '!' if j else 'z'])
    return out


def value(r):
    out = r.choice([r.choice(WORD), r.choice(ESC), '}', '#', '!', 'v']) if r.random() < 0.95 else cont(r)
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        out += r.choice([r.choice(WORD), r.choice(WORD), r.choice(ESC), blanks(r), r.choice('{}:=#!'), cont(r) if r.random() < 0.4 else 'v'])
    return out


def line(r):
    return ''.join(r.choice([r.choice(WORD), r.choice(ESC), r.choice('{}:=#!@ \t\\')]) for _ in range(r.choice([0, 0, 1, 2, 4])))


def block(r, depth, most):
    out = ''
    for _ in range(r.choice([0, 1, 1, 2, 3, 5][:most])):
        k = r.random()
        out += blanks(r)
        if k < 0.12:
            out += r.choice(BREAK)
        elif k < 0.27:
            out += r.choice('##!') + line(r) + r.choice(BREAK)
        elif k < 0.35:
            out += '@' + (line(r) or 'x') + r.choice(BREAK)
        elif k < 0.55 and depth < 4:
            out += key(r) + r.choice([blanks(r, 1), blanks(r) + r.choice('=:') + blanks(r)]) + '{' + r.choice(BREAK)
            out += block(r, depth + 1, most) + blanks(r) + '}' + r.choice(BREAK)
        elif k < 0.65:
            out += key(r) + blanks(r) + r.choice(['', '=', ':']) + blanks(r) + r.choice(BREAK)
        else:
            out += key(r) + r.choice([blanks(r, 1), blanks(r) + r.choice('=:') + blanks(r)]) + value(r) + r.choice(BREAK)
    return out


def damage(r, t):
    for _ in range(r.choice([1, 1, 2])):
        if not t:
            return t
        i = r.randrange(len(t))
        k = r.random()
        if k < 0.4:
            t = t[:i] + t[i + 1:]
        elif k < 0.8:
            t = t[:i] + r.choice(list('{}@:=#!\\\n\r \t')) + t[i:]
        else:
            t = t[:i]
    return t


def properties(r):
    """Bytes of a property text, mostly well formed."""
    t = block(r, 0, 6)
    if r.random() < 0.3 and t:
        t = t.rstrip('\r\n') if r.random() < 0.5 else t[:-1]
    if r.random() < 0.25:
        t = damage(r, t)
    b = t.encode()
    if r.random() < 0.04:
        i = r.randrange(len(b) + 1)
        b = b[:i] + r.choice([b'\xe2', b'\x80', b'\xff', b'\xc3', b'\xf0\x9f\x98', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe2\x82']) + (b[i:] if r.random() < 0.6 else b'')
    return b


def escaped(r):
    t = ''
    for _ in range(r.randrange(0, 8)):
        t += r.choice([r.choice(WORD), r.choice(ESC), cont(r), blanks(r), '\\'])
    return t
