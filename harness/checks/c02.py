"""C02: converting between YAML and JSON keeps the document (Docs.tla)."""
import io
import json
import os
import subprocess
import yaml
import vlib
import docs
import cliutil


def run(ctx):
    w = vlib.import_wcxf()
    from wcxf.converters.yamljson import convert_json, convert_yaml
    trees, routes = docs.generate(ctx)
    ctx.extra['trees'] = len(trees)
    # routes made of conversions only (after an initial dump)
    convs = sorted({tuple(o for o in r['ops'][1:]) + (r['ops'][0],) for r in routes
                    if r['ops'][0].startswith('dump') and len(r['ops']) > 1 and set(r['ops'][1:]) <= {'toyaml', 'tojson'}})
    ctx.extra['conversion_routes'] = len(convs)
    ctx.sample({'route': convs[-1]})
    ctx.sample(trees[5])

    def json_text(rng, d):
        t = docs.hand_json(rng, d) if rng.random() < .4 else None
        if t is not None:
            return t
        return json.dumps(d, **rng.choice([{}, {'indent': 2}, {'indent': 4, 'ensure_ascii': False},
                                           {'separators': (',', ':')}, {'sort_keys': True}, {'indent': '\t'}]))

    def yaml_text(rng, d):
        t = docs.hand_yaml(rng, d) if rng.random() < .5 and isinstance(d, dict) and d else None
        if t is not None:
            return t
        t = yaml.safe_dump(d, **rng.choice([{}, {'default_flow_style': False}, {'default_flow_style': True},
                                            {'allow_unicode': True, 'default_flow_style': False},
                                            {'indent': 4}, {'width': 30}, {'explicit_start': True}]))
        if rng.random() < .2:
            t = '# a comment: with {braces}\n' + t
        return t

    def run_conv(rng, to, text):
        i, o = io.StringIO(text), io.StringIO()
        st = (convert_json if to == 'json' else convert_yaml)(i, o)
        return st, o.getvalue()

    def parse(fmt, text):
        return json.loads(text) if fmt == 'json' else yaml.safe_load(text)

    def do(rec, tree):
        rng = rec.rng
        if 'kind' in tree:
            d = docs.concrete(tree['v'], rng)
        else:
            x = docs.concrete(tree, rng)
            d = x if x is not None and rng.random() < .5 else {'values': x, 'eft': 'A'}
        want = json.loads(json.dumps(d))
        c = rng.choice(convs)
        fmt = c[-1][4:]
        text = json_text(rng, d) if fmt == 'json' else yaml_text(rng, d)
        for op in c[:-1]:
            to = op[2:]
            st, out = run_conv(rng, to, text)
            rec.check(not st, 'the conversion succeeds', to=to, status=st, text=text[:300])
            try:
                got = parse(to, out)
            except Exception as e:
                rec.fail('the output is well formed %s' % to, error=str(e), input=text[:300], output=out[:300])
                return
            if not rec.check(docs.same(got, want), 'the data are the same after conversion to %s' % to,
                             expected=want, got=got, input=text[:300]):
                return
            # and WCxf's own loader agrees
            text = out
        rec.traces += 1

    vlib.parallel(ctx, do, list(trees) * (6 if ctx.thorough else 1))
    ctx.extra['wcxf_documents'] = len(ctx.wcxf_docs)
    vlib.parallel(ctx, do, list(ctx.wcxf_docs) * (8 if ctx.thorough else 2))

    # YAML layouts that the dumper does not produce
    layouts = [
        ("a: &x {k: 1, l: [1, 2]}\nb: *x\n", {'a': {'k': 1, 'l': [1, 2]}, 'b': {'k': 1, 'l': [1, 2]}}),
        ("%YAML 1.1\n---\na: 1\n", {'a': 1}), ("{a: 1, b: [x, y],}", {'a': 1, 'b': ['x', 'y']}),
        ("a: |\n  line 1\n  line 2\nb: >\n  folded\n  text\n", {'a': 'line 1\nline 2\n', 'b': 'folded text\n'}),
        ("a:\n- 1\n-   b: 2\n    c: 3\n", {'a': [1, {'b': 2, 'c': 3}]}),
        ("a: 1.5e-3\nb: -0.5\nc: 1e-3\nd: 0.1\n", {'a': 1.5e-3, 'b': -.5, 'c': '1e-3', 'd': .1}),
        ("a: yes\nb: 'yes'\nc: ~\nd:\ne: \"\\u00e9\"\n", {'a': True, 'b': 'yes', 'c': None, 'd': None, 'e': '\u00e9'}),
        ("values:\n  C9_bsmumu:\n    Re: 0.1\n    Im: -2\n  C10_bsmumu: 3  # comment\n",
         {'values': {'C9_bsmumu': {'Re': .1, 'Im': -2}, 'C10_bsmumu': 3}}),
        # merge keys: what a mapping states itself comes first, then the merged ones in their order
        ("a: &x {p: 1, r: 0}\nb:\n  <<: *x\n  q: 2\n", {'a': {'p': 1, 'r': 0}, 'b': {'p': 1, 'r': 0, 'q': 2}}),
        ("a: &x {p: 1}\nb: {p: 3, <<: *x}\nc: {<<: *x, p: 4}\n", {'a': {'p': 1}, 'b': {'p': 3}, 'c': {'p': 4}}),
        ("a: &x {p: 1, q: 1}\nb: &y {q: 2, r: 2}\nc: {<<: [*x, *y]}\nd: {<<: [*y, *x], r: 3}\n",
         {'a': {'p': 1, 'q': 1}, 'b': {'q': 2, 'r': 2}, 'c': {'p': 1, 'q': 1, 'r': 2}, 'd': {'p': 1, 'q': 2, 'r': 3}}),
        ("a: &x {p: &z {k: [1]}}\nb: {<<: *x, s: {<<: *z, l: 2}}\n", {'a': {'p': {'k': [1]}}, 'b': {'p': {'k': [1]}, 's': {'k': [1], 'l': 2}}}),
        ("'<<': {p: 1}\n", {'<<': {'p': 1}}), ("a: &x\n- 1\nb: [*x, *x]\n", {'a': [1], 'b': [[1], [1]]}),
        ("? a\n: b\n", {'a': 'b'}), ("a: 0x1F\nb: 017\nc: 1_000\n", {'a': 31, 'b': 15, 'c': 1000})]
    for text, want in layouts:
        st, out = run_conv(ctx.rng, 'json', text)
        try:
            got = json.loads(out)
        except Exception as e:
            got = repr(e)
        ctx.check(not st and docs.same(got, want), 'YAML layout converted to JSON', input=text, got=got)
        st, out2 = run_conv(ctx.rng, 'yaml', out)
        ctx.check(not st and docs.same(yaml.safe_load(out2), want), '... and back', input=text, got=out2)
    for text in ['{"a": 1,}', "{'a': 1}", '{"a": }', '{"a": 1', 'a: 1\n', '', '[1, 2', '{"a": 1} x', '{"a" 1}', '{"a": 1}{"b": 2}',
                 '{"a": 1}\n{"a": 1}\n', '{"a": 01}', '{"a": .5}', '{"a": +1}', '{"a": 1.}', '{"a": True}', '{a: 1}', '[1 2]', '"a\nb"', '{"a": "\\x"}',
                 '// c\n{}', '{} # c', '---\n{}', 'nul', '{"a": 1]', '\x00', ' ', '\n']:
        st, out = run_conv(ctx.rng, 'yaml', text)
        ctx.check(st not in (0, None), 'malformed JSON is reported', input=text, status=st)
    for text in ['a: [1, 2', 'a: {b: 1', 'a: b: c', '"abc', 'a: *x', "- a\nb: 1", 'a: "x\n', '%YAML 1.1\n%YAML 1.1\na',
                 'a:\n\t- b', '@a: 1', 'a: 1\n---\nb: 2\n', '--- 1\n--- 2\n', '{}\n---\n{}', 'a: !foo x', "a: 'x' y", 'a: b\n c: d',
                 '\x00', 'key: [a, b]]', '{a: b}}', 'a: 1\n b: 2', '[a, b: {c]}', '&a &b x', '*x', '!!map [1]', '!!seq {a: 1}', '<<: 1', 'a: &x [1]\nb: {<<: *x}']:
        st, out = run_conv(ctx.rng, 'json', text)
        ctx.check(st not in (0, None), 'malformed YAML is reported', input=text, status=st)

    # the command line does the same
    def do_cli(rec, tree):
        rng = rec.rng
        d = {'values': docs.concrete(tree, rng), 'eft': 'A'}
        want = json.loads(json.dumps(d))
        to = rng.choice(['json', 'yaml'])
        text = json_text(rng, d) if to == 'yaml' else yaml_text(rng, d)
        r = cliutil.fork_cli(ctx.scratch, 'wcxf_cli', ['convert', to], text, rng)
        try:
            got = parse(to, r.out)
        except Exception as e:
            got = repr(e)
        rec.check(r.status == 0 and docs.same(got, want), 'command line conversion to %s' % to,
                  status=r.status, expected=want, got=got, err=r.err[-300:])
        bad = rng.choice(['xml', '', 'txt', 'jsn'])
        r = cliutil.fork_cli(ctx.scratch, 'wcxf_cli', ['convert', bad], text, rng)
        rec.check(r.status != 0, 'unknown target format is refused', format=bad, status=r.status)
        rec.traces += 1

    vlib.parallel(ctx, do_cli, ctx.rng.sample(trees, 600 if ctx.thorough else 120))
    ctx.assumptions += ['documents are JSON data with text keys (not null alone); YAML dates are outside']
