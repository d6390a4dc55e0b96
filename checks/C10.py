"""C10: dates are validated and formatted as strftime(3) defines, in GMT."""
import calendar
import ctypes
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib  # noqa: E402

PID = 'C10'
COUNT = {'quick': 7000, 'thorough': 60000}
RULE = ('runs of 25 sources, each with its own date (all four forms, 1900-9999, leap days, year ends; a quarter with one field '
        'out of range or malformed) and its own DATE_FORMAT made of all strftime conversions, flags, widths and text, in 9 '
        'time zones; the oracle is an independent calendar and the C library\'s strftime on that GMT instant; distinct = '
        'different (date, format)')
MIN_DISTINCT = 1000
ASSUMPTIONS = ['%s, second 60, days after the end of their month and text after the seconds are left open and not generated',
               'formats whose result is empty or longer than 1023 bytes are left open by the property']
ZONES = ['UTC', 'GMT0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'America/Sao_Paulo', 'Asia/Kolkata', 'Pacific/Apia',
         'XYZ+12:34:56', 'Europe/Berlin', None, 'nonsense', 'ABC-14']


class Tm(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'wday', 'yday', 'isdst')] + \
        [('gmtoff', ctypes.c_long), ('zone', ctypes.c_char_p)]


libc = ctypes.CDLL(None)


def strftime(fmt, d):
    y, mo, dd, h, mi, s = d
    t = Tm(s, mi, h, dd, mo - 1, y - 1900, (calendar.weekday(y, mo, dd) + 1) % 7,
           sum(calendar.monthrange(y, k)[1] for k in range(1, mo)) + dd - 1, 0, 0, b'GMT')
    b = ctypes.create_string_buffer(2048)
    n = libc.strftime(b, 2048, fmt.encode(), ctypes.byref(t))
    return b.raw[:n] if 0 < n < 1024 else None


CONV = 'aAbBcCdDeFgGhHIjklmMnpPrRStTuUVwWxXyYzZ%'


def fmt(r):
    k = r.random()
    if k < .12:
        return r.choice(['%Y-%m-%d', '%b %d, %Y, %I:%M %p GMT', '%Y-%m-%dT%H:%M:%SZ', '%a, %d %b %Y %H:%M:%S +0000', '%j', '%U %V %W %u %w', '%c'])
    out = []
    for _ in range(r.randint(1, 8)):
        k = r.random()
        if k < .7:
            f = '%'
            if r.random() < .15:
                f += r.choice(['_', '-', '0', '^', '#', '+'])
            if r.random() < .07:
                f += str(r.choice([1, 2, 3, 5, 10, 40, 200]))
            if r.random() < .05:
                f += r.choice('EO')
            out.append(f + r.choice(CONV))
        elif k < .75:
            out.append(r.choice(['%Q', '%!', '%é', '%1', '% ']))
        else:
            out.append(r.choice([' ', '-', '/', ':', 'de', 'é', '日', 'x', '"', '<b>', ', ', '\\', '{{ A }}', '$', 'T', '=']))
    s = ''.join(out)
    k = r.random()
    if k < .03:
        s += 'x' * r.choice([900, 1000, 1010, 1015, 1022, 1023, 1024])
    elif k < .05:
        s = 'z' * r.choice([1019, 1020, 1021, 1022, 1023]) + r.choice(['%d', '%Y', ''])
    return s.strip(' \t\n\v\f\r') or '%Y'


def date(r):
    k = r.random()
    y = r.choice([1900, 1901, 1969, 1970, 1999, 2000, 2004, 2016, 2019, 2020, 2024, 2037, 2038, 2039, 2100, 2106, 9999,
                  r.randint(1900, 9999), r.randint(1970, 2037)])
    m = r.randint(1, 12)
    d = r.choice([1, r.randint(1, 28), calendar.monthrange(y, m)[1]])
    if k < .2:
        m, d = r.choice([(2, 28), (2, 29) if calendar.isleap(y) else (3, 1), (12, 31), (1, 1), (3, 1), (12, 29), (1, 3)])
    h, mi, s = r.choice([0, 23, 2, 3, r.randint(0, 23)]), r.choice([0, 59, 30, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)])
    n = r.choice([3, 3, 4, 5, 6, 6, 6])
    v = [y, m, d, h, mi, s][:n]
    t = [y, m, d, h, mi, s]
    t[n:] = [0] * (6 - n)
    text = '%04d-%02d-%02d' % tuple(v[:3]) + (' %02d' % h if n > 3 else '') + (':%02d' % mi if n > 4 else '') + (':%02d' % s if n > 5 else '')
    if r.random() >= .25:
        return text, t
    # break it
    k = r.randint(0, 7)
    if k == 0:
        text = '%04d' % r.choice([0, 1, 1899, 999, 1000]) + text[4:]
    elif k == 1:
        text = text[:5] + r.choice(['00', '13', '19', '20', '99']) + text[7:]
    elif k == 2:
        text = text[:8] + r.choice(['00', '32', '39', '40', '99']) + text[10:]
    elif k == 3 and n > 3:
        text = text[:11] + r.choice(['24', '29', '30', '99']) + text[13:]
    elif k == 4 and n > 4:
        text = text[:14] + r.choice(['60', '99', '61']) + text[16:]
    elif k == 5 and n > 5:
        text = text[:17] + r.choice(['61', '70', '99', '69'])
    elif k == 6:
        p = r.randrange(len(text))
        text = text[:p] + r.choice(['x', 'é', '/', ' ', '-', ':', '.', '%', 'O', '{'] if not text[p].isdigit() else
                                   ['x', '/', ' ', '-', ':', '.', 'O', ';']) + text[p + 1:]
        if text[p] == '-' and p in (4, 7) or text[p] == ' ' and p == 10 or text[p] == ':' and p in (13, 16):
            text = 'x' + text
    else:
        cut = r.choice([c for c in range(1, len(text)) if c not in (10, 13, 16, 19)])
        text = text[:cut]
        if text.strip() != text:
            text = text.strip()
            if len(text) in (10, 13, 16, 19):
                text = 'x'
    text = text.strip(' \t\n\v\f\r') or 'x'
    return text, None


def gen(rng, i, tier):
    r = rng
    case = {'items': [], 'tz': r.choice(ZONES), 'glob': fmt(r) if r.random() < .5 else None}
    for _ in range(25):
        a, b = date(r), date(r)
        case['items'].append({'date': a, 'upd': b, 'fmt': fmt(r) if r.random() < .8 else None})
    return case


T = ('{% block listing_once %}{{ DATE_FIRST_FORMATTED }}\x02{{ DATE_LAST_FORMATTED }}{% endblock %}{% block listing %}\x01'
     '{{ DATE_FORMATTED }}\x02{{ DATE_UPD_FORMATTED }}\x02{{ DATE }}{% endblock %}')


def run_case(ctx, case):
    res = vlib.Res()
    d = ctx.fresh()
    with open(d + '/t', 'w') as fp:
        fp.write(T)
    cmd = [ctx.asan('blogc'), '-l', '-t', 't']
    if case['glob'] is not None:
        cmd += ['-D', 'DATE_FORMAT=' + case['glob']]
    for n, it in enumerate(case['items']):
        with open(d + '/%d.txt' % n, 'w') as fp:
            fp.write('DATE: %s\nDATE_UPD: %s\n' % (it['date'][0], it['upd'][0])
                     + ('DATE_FORMAT: %s\n' % it['fmt'] if it['fmt'] is not None else '') + '---\nx\n')
        cmd.append('%d.txt' % n)
    r = vlib.run(cmd, cwd=d, env=vlib.base_env(TZ=case['tz']))
    if res.crash(r, 'blogc'):
        return res
    if r.rc != 0:
        res.bad('failed', '%r: %s' % (case['items'], r.err[-500:].decode('utf-8', 'replace')))
        return res
    parts = r.out.split(b'\x01')
    warnings = r.err.decode('utf-8', 'replace').count('warning: datetime:')

    def judge(what, dt, f, got):
        """number of warnings this one must give, None if left open"""
        text, t = dt
        if f is None:
            exp, n = text.encode(), 0
        elif t is None:
            exp, n = text.encode(), 1
        else:
            exp, n = strftime(f, t), 0
            if exp is None:
                res.feats['left open'] += 1
                return None
        res.n += 1
        res.feats['kept without format' if f is None else 'invalid date kept' if t is None else 'formatted'] += 1
        if t is not None and f is not None:
            res.sig(text, f)
        if got != exp:
            res.bad('formatting' if t is not None else 'invalid date', '%s: date %r format %r in TZ=%s: expected %r, got %r' % (
                what, text, f, case['tz'], exp[:300], got[:300]))
        return n
    if len(parts) != len(case['items']) + 1:
        res.bad('items', 'listing of %d items: %r' % (len(case['items']), r.out[:1000]))
        return res
    total = 0
    its = case['items']

    def add(n):
        nonlocal total
        total = None if n is None or total is None else total + n
    h = parts[0].split(b'\x02')
    add(judge('DATE_FIRST_FORMATTED', its[0]['date'], case['glob'], h[0]))
    add(judge('DATE_LAST_FORMATTED', its[-1]['date'], case['glob'], h[1]))
    for it, p in zip(its, parts[1:]):
        f = it['fmt'] if it['fmt'] is not None else case['glob']
        g = p.split(b'\x02')
        if len(g) != 3:
            res.bad('items', repr(p))
            return res
        add(judge('DATE_FORMATTED', it['date'], f, g[0]))
        add(judge('DATE_UPD_FORMATTED', it['upd'], f, g[1]))
        if g[2] != it['date'][0].encode():
            res.bad('DATE', 'DATE %r became %r' % (it['date'][0], g[2]))
    if total is not None and (warnings > 0) != (total > 0):
        res.bad('warnings', '%d invalid dates, %d warnings: %r' % (total, warnings, r.err[:600]))
    res.feats['TZ=%s' % case['tz']] += 1
    if res.sample is None and not res.viol:
        res.sample = [{'date': it['date'][0], 'format': it['fmt'], 'result': p.split(b'\x02')[0].decode('utf-8', 'replace')}
                      for it, p in list(zip(its, parts[1:]))[:3]]
    return res


def shrink(case):
    for k in range(len(case['items'])):
        if len(case['items']) > 1:
            yield dict(case, items=case['items'][:k] + case['items'][k + 1:])
    yield dict(case, tz='UTC')


if __name__ == '__main__':
    vlib.main(sys.modules[__name__])
