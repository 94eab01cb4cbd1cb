"""shared pieces of the window checks"""

SPLINES = ['NNB', 'CIC', 'TSC', 'PCS', 'NEAREST', 'LINEAR', 'QUADRATIC', 'CUBIC']
TUNED = {'NNB': 'NEAREST', 'CIC': 'LINEAR', 'TSC': 'QUADRATIC', 'PCS': 'CUBIC'}
NATIVE = {'NNB': 1, 'CIC': 2, 'TSC': 3, 'PCS': 4, 'NEAREST': 1, 'LINEAR': 2, 'QUADRATIC': 3, 'CUBIC': 4}
TABLES = ['LANCZOS2', 'LANCZOS3', 'LANCZOS4', 'LANCZOS5', 'LANCZOS6', 'ACG2', 'ACG3', 'ACG4', 'ACG5', 'ACG6',
          'DB6', 'DB12', 'DB20', 'SYM6', 'SYM12', 'SYM20']


def coords(c, ranges, tag='', kinks=()):
    """one position per axis: cell number in the given inclusive range plus a fraction in [0,1);
    kinks: fractions left out (where a derivative does not exist)"""
    out = []
    for d, r in enumerate(ranges):
        f = c.real('f%s%d' % (tag, d), 0, 1, hi_open=True)
        for k in kinks:
            c.assume((f < k) | (f > k))
        if r[0] == r[1]:
            n = r[0]
        else:
            n = c.int('n%s%d' % (tag, d), r[0], r[1])
        out.append(n + f)
    return out


def window(env, cfg):
    W = env.load('window')
    w = W.windows[cfg['win']]
    if cfg.get('support'):
        w = w.resize(cfg['support'])
    return W, w


def padded(np, shape, dtype, pad=1):
    """a canvas that is an interior block of a larger buffer: (buffer, canvas)"""
    buf = np.zeros(tuple(s + 2 * pad for s in shape), dtype)
    return buf, buf[tuple(slice(pad, pad + s) for s in shape)]
