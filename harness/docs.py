"""Binding of spec/Docs.tla: concrete documents for the abstract trees (C01 C02)."""
import math

SCALAR = {
    's:yes': 'yes', 's:no': 'No', 's:true': 'true', 's:null': 'null', 's:~': '~', 's:empty': '',
    's:1': '1', 's:1.0': '1.0', 's:1e5': '1e5', 's:1e-3': '1e-3', 's:1_000': '1_000', 's:0x10': '0x10',
    's:0o7': '0o7', 's:010': '010', 's:.inf': '.inf', 's:.nan': '.nan', 's:date': '2018-01-01',
    's:timestamp': '2001-12-14t21:59:43.10-05:00', 's:sexagesimal': '190:20:30', 's:=': '=', 's:<<': '<<',
    's:dash': '- a', 's:colon': 'a: b', 's:hash': 'a #b', 's:brace': '{a: 1}', 's:bracket': '[1, 2]',
    's:star': '*a', 's:amp': '&a b', 's:bang': '!tag x', 's:pipe': '| x', 's:percent': '%YAML 1.1',
    's:at': '@a', 's:backtick': '`C9_{bs}`', 's:quote': "it's", 's:dquote': 'say "x"', 's:backslash': '\\n \\ \\',
    's:tex': '(\\bar s_L \\gamma_\\mu b_L)(\\bar \\mu \\gamma^\\mu \\mu)', 's:newline': 'a\nb\n\nc', 's:trailnl': 'a\n',
    's:leadspace': '  a', 's:trailspace': 'a  ', 's:tab': 'a\tb', 's:cr': 'a\rb\r\nc',
    's:unicode': 'Stra\u00dfe \u03b3 \u4e2d', 's:astral': 'x\U0001d6fcy', 's:nbsp': 'a\u00a0b', 's:nel': 'a\u2028c',
    's:ctrl': 'a\x01\x1bb', 's:long': 'word ' * 60, 's:doc': '---\n...', 's:plain': 'C9_bsmumu', 's:question': '? x',
    's:comma': 'a, b', 's:json': '{"a": [1, null]}', 's:indent': ' a\n  b\n c',
    's:env': '$HOME and ${PATH} $$', 's:home': '~/wc.json', 's:format': '{eft} %(eft)s %s {0} {{x}}', 's:include': '!include a.yml',
    's:entity': '&lt;b&gt; &amp; %20 <br/>', 's:tabs': '\ta\t\tb\t', 's:bom': '\ufeffa', 's:upper': 'C9_BSMUMU ABC', 's:path': 'C:\\new\\table',
    's:slashes': 'http://a.b/c // d /* e */', 's:jsonnum': '-1.5E+10', 's:infinity': 'Infinity',
    's:comment': 'a\n# b\nc', 's:listlike': 'a\n- b: 1\n---\n%x', 's:blank': 'a\n\n\n# b \n c',
    'n:0': 0, 'n:1': 1, 'n:-1': -1, 'n:big': 12345678901234567890123, 'n:0.0': 0.0, 'n:0.1': 0.1, 'n:-2.5': -2.5,
    'n:1e-5': 1e-05, 'n:1e-300': 1e-300, 'n:min': 5e-324, 'n:max': 1.7976931348623157e308, 'n:1e16': 1e16,
    'n:1e22': 1e22, 'n:third': 1 / 3., 'n:intfloat': 160.0, 'n:inf': float('inf'), 'n:-inf': float('-inf'),
    'n:digits': 91.18761234567891, 'n:-0.0': -0.0, 'n:2e53': 9007199254740993, 'n:-big': -10 ** 30, 'n:1e-12': 1.0000000000001e-12,
    'b:true': True, 'b:false': False, 'null': None, 'emptymap': {}, 'emptylist': []}
KEYS = {'k': 'key', 'l': 'other'}
FIELDS = {'eft', 'basis', 'sectors', 'scale', 'values', 'metadata', 'parent', 'description', 's', 't', 'C', 'tex', 'real',
          'Re', 'Im'}
NAMES = sorted(SCALAR)


def concrete(tree, rng):
    t, v = tree['t'], tree['v']
    if t == 'leaf':
        s = rng.choice(NAMES) if v == '*' else v
        x = SCALAR[s]
        return type(x)() if isinstance(x, (dict, list)) else x
    if t == 'list':
        return [concrete(x, rng) for x in v]
    out = {}
    for k, x in v:
        if k in FIELDS:
            kk = k
        elif k in KEYS:
            kk = KEYS[k] if rng.random() < .6 else rng.choice([SCALAR[n] for n in NAMES if n.startswith('s:')])
        else:
            kk = SCALAR[k]
            if not isinstance(kk, str):
                kk = str(kk)
        out[kk] = concrete(x, rng)
    return out


def same(a, b):
    """Same data with the same types (mappings compare as mappings)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def generate(ctx):
    lines, _ = ctx.emit_lines('Docs', 'Docs.cfg')
    trees = [l['v'] for l in lines if l['t'] == 'tree']
    routes = [l for l in lines if l['t'] == 'route']
    ctx.wcxf_docs = [l['v'] for l in lines if l['t'] == 'doc']
    return trees, routes


# ---- documents as people write them -----------------------------------------

def _hand_scalar(rng, x, flow):
    """One of the ways to write a scalar in YAML; None if no simple one is found."""
    import yaml
    if isinstance(x, str):
        tries = [x] if x else []
        if '\n' not in x:
            tries.append("'%s'" % x.replace("'", "''"))
        # double quoted, with escapes only where needed
        tries += ['"%s"' % ''.join('\\%s' % c if c in '"\\' else c if c == '\t' or ' ' <= c < '\x7f' or '\xa0' < c < '\ud800' and c not in '\u2028\u2029'
                                   else '\\U%08x' % ord(c) for c in x)] * 2
        rng.shuffle(tries)
    elif isinstance(x, bool):
        tries = rng.sample(['true', 'True', 'yes', 'on', 'TRUE'] if x else ['false', 'False', 'no', 'off', 'NO'], 3)
    elif x is None:
        tries = rng.sample(['~', 'null', 'Null'] + ([''] if not flow else []), 3)
    elif isinstance(x, int):
        tries = [str(x), '+%d' % x, '0x%x' % x if x >= 0 else str(x)]
        rng.shuffle(tries)
    elif isinstance(x, float):
        tries = [repr(x), '%.17e' % x, '+' + repr(x), '%.20f' % x if abs(x) < 1e6 else repr(x), repr(x).replace('inf', '.inf'), repr(x).replace('inf', '.Inf')]
        rng.shuffle(tries)
    elif x == {}:
        return rng.choice(['{}', '{ }'])
    elif x == []:
        return rng.choice(['[]', '[ ]'])
    for t in tries + [yaml.safe_dump(x, width=10 ** 6, allow_unicode=rng.random() < .5).rstrip('\n').replace('\n...', '')]:
        try:
            if same(yaml.safe_load('{a: [%s, 1]}' % t if flow else 'k:\n  a: %s\n' % t), {'a': [x, 1]} if flow else {'k': {'a': x}}) and \
                    (flow or '\n' not in t):
                return t
        except Exception:
            pass
    return None


def _hand_key(rng, k):
    t = _hand_scalar(rng, k, True)
    if t is None or len(t) > 900:
        raise ValueError
    return t


def _hand_flow(rng, x, d):
    br = lambda: rng.choice(['', '', ' ', '\n' + ' ' * d, '  '])
    if isinstance(x, dict) and x:
        return '{' + br() + (',' + rng.choice([' ', '\n' + ' ' * d])).join('%s: %s' % (_hand_key(rng, k), _hand_flow(rng, v, d)) for k, v in x.items()) + br() + '}'
    if isinstance(x, list) and x:
        return '[' + br() + ', '.join(_hand_flow(rng, v, d) for v in x) + rng.choice(['', ',']) + br() + ']'
    t = _hand_scalar(rng, x, True)
    if t is None:
        raise ValueError
    return t


def _hand_block(rng, x, ind):
    out = []
    junk = lambda: rng.choice([''] * 6 + ['\n', '# comment: {x}\n', ' ' * ind + '# c\n', '   \n'])
    tail = lambda: rng.choice([''] * 5 + ['  # note', ' #', '  '])
    sp = lambda: rng.choice([' '] * 4 + ['  ', '\t', '     '])
    step = rng.choice([1, 2, 2, 2, 4, 7])
    items = x.items() if isinstance(x, dict) else [(None, v) for v in x]
    for k, v in items:
        head = ' ' * ind + ('-' if k is None else _hand_key(rng, k) + ':')
        out.append(junk())
        if isinstance(v, (dict, list)) and v and rng.random() < .7:
            out.append(head + tail() + '\n' + _hand_block(rng, v, ind + step))
        elif isinstance(v, (dict, list)) and v:
            out.append(head + ' ' + _hand_flow(rng, v, ind + 8) + tail() + '\n')
        elif isinstance(v, str) and v.strip() and rng.random() < .4 and v[0] not in ' \t\n' and all(l.isprintable() for l in v.split('\n')) and not v.endswith('\n\n'):
            body, w = v[:-1] if v.endswith('\n') else v, ' ' * (ind + rng.choice([1, 3]))
            lines = body.split('\n')
            style = '|'
            if rng.random() < .3 and all(l and l[0] not in ' \t' for l in lines):
                style, lines = '>', [y for l in lines for y in (l, '')][:-1]
            out.append(head + ' ' + style + ('-' if body is v else '') + '\n' + ''.join((w + l if l else '') + '\n' for l in lines))
        else:
            t = _hand_scalar(rng, v, False)
            if t is None:
                raise ValueError
            out.append(head + sp() + t + tail() + '\n' if t else head + '\n')
    return ''.join(out)


def hand_yaml(rng, d):
    """The document in YAML as a person may write it (None if it cannot be written by these rules)."""
    import yaml
    for _ in range(3):
        try:
            t = _hand_block(rng, d, 0) if rng.random() < .8 else _hand_flow(rng, d, 2) + '\n'
        except ValueError:
            return None
        t = rng.choice(['', '', '', '---\n', '%YAML 1.1\n---\n', '# c\n', '\n\n', '\ufeff']) + t + rng.choice(['', '', '', '...\n', '\n', '# end', '...\n# end\n'])
        if rng.random() < .2 and '\n' not in ''.join(_texts(d)):
            t = t.replace('\n', '\r\n')
        try:
            if same(yaml.safe_load(t), d):
                return t
        except Exception:
            pass
    return None


def _texts(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from _texts(v)
    elif isinstance(x, list):
        for v in x:
            yield from _texts(v)
    elif isinstance(x, str):
        yield x


def hand_json(rng, d):
    """The document in JSON with any white space and escapes."""
    ws = lambda: rng.choice(['', '', '', ' ', '\n', '\t', '\r\n', '    '])
    def s(x):
        return '"' + ''.join(c if c not in '"\\' and ' ' <= c and rng.random() < .9 and not '\ud800' <= c <= '\udfff' else
                             {'"': '\\"', '\\': '\\\\', '/': '\\/', '\n': '\\n', '\t': '\\t'}.get(c) or
                             ''.join('\\u%04x' % int.from_bytes(c.encode('utf-16-be')[i:i + 2], 'big') for i in range(0, len(c.encode('utf-16-be')), 2))
                             for c in x) + '"'
    def go(x):
        import json
        if isinstance(x, dict):
            return '{' + ws() + ','.join(ws() + s(k) + ws() + ':' + ws() + go(v) + ws() for k, v in x.items()) + ws() + '}'
        if isinstance(x, list):
            return '[' + ws() + ','.join(ws() + go(v) + ws() for v in x) + ws() + ']'
        if isinstance(x, str):
            return s(x)
        t = json.dumps(x)
        if isinstance(x, float) and math.isfinite(x):
            t = rng.choice([t, '%.17e' % x, '%.17E' % x, t.upper()])
        return t
    import json
    t = ws() + go(d) + ws()
    try:
        return t if same(json.loads(t), d) else None
    except ValueError:
        return None
