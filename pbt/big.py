"""Long inputs: hundreds of cues, for what only shows with many of them (counters, indexes, windows)."""
import random

def pick(key):
    return random.Random('long ' + key)


def times(r, n, step=3000000, grid=1):
    """n sorted cues without overlap, in microseconds on the grid; some back to back, over several hours"""
    t, out = 0, []
    for _ in range(n):
        d = r.choice([1000000, 1500000, 2000000, r.randrange(40000, 5000000)]) // grid * grid
        out.append((t, t + d))
        t += d + r.choice([0, 0, step, 40000, r.randrange(0, 90 * 10 ** 6)]) // grid * grid
    return out


def caps(key, n, grid=1, text=lambda r, i: [['t', f'w{i}']], **kw):
    r = pick(key)
    return [{'s': s, 'e': e, 'nodes': text(r, i)} for i, (s, e) in enumerate(times(r, n, grid=grid, **kw))]


def clock(us, sep):
    ms = us // 1000
    return {'k': 'clock', 'm': f'{ms // 60000 % 60:02d}', 's': f'{ms // 1000 % 60:02d}', 'sep': sep,
            'h': f'{ms // 3600000:02d}', 'f': f'{ms % 1000:03d}'}


def packed(text):
    from pbt import scc608 as S
    b = [S.par(ord(c)) for c in text] + [S.par(0)] * (len(text) % 2)
    return [f'{x:02x}{y:02x}' if isinstance(x, int) else x + y for x, y in zip(b[::2], b[1::2])]


def scc(key, n, mode='pop', rows=range(1, 16), length=None):
    """n captions over a whole day; one or two rows each, all rows in turn"""
    from pbt import scc608 as S
    r = pick(f'{mode} {key}')
    t, lines, drop, dbl = 30, [], r.random() < .5, r.choice([1, 2])
    for i in range(n):
        w = {'pop': [S.ENM] * dbl + [S.RCL] * dbl, 'paint': [S.RDC] * dbl,
             'roll': [S.RU[r.choice([2, 3, 4])]] * dbl * (i == 0) + [S.CR] * dbl}[mode]
        for row in [15] if mode == 'roll' else sorted(r.sample(list(rows), r.choice([1, 1, 2]))):
            w = w + [S.PAC[row, 16]] * dbl + packed(f'w{i} r{row}' if not length else f'w{i}'.ljust(length(r, i), 'x'))
        if mode == 'pop':
            w += [S.EDM] * dbl * (i % 3 == 0) + [S.EOC] * dbl
        lines.append([S.tc(t, drop), ' '.join(w)])
        t += len(w) + r.choice([30, 45, 100, 600, r.randrange(60, 16000)])
        if mode == 'pop' and i % 4 == 0:
            lines.append([S.tc(t, drop), ' '.join([S.EDM] * dbl)])
            t += r.choice([2, 4, 5, 6, 90])
    return lines
