"""C21: the LaTeX check reports latex's verdict and leaves nothing behind (Latex.tla)."""
import json
import os
import vlib
import fakelatex

GOOD = [r'\alpha', r'O_{9}^{\mu}', r'(\bar s_L \gamma^\mu b_L)(\bar\mu\gamma_\mu\mu)', 'x', r'a\,b', '{}', '%s %d {0}',
        r'\text{a}, \text{b}', "\\frac{1}{2}'", '"q"', 'a\\ ', 'a\tb', 'a % it\n b', 'a\n+ b', '\\,\t', 'A  B', '\\mathbf{1}\\ \\ ', '#1', 'a&b~c']


def run(ctx):
    w = vlib.import_wcxf()
    w.EFT.clear_all()
    w.Basis.clear_all()
    cases, _ = ctx.emit_lines('Latex', 'LatexFull.cfg' if ctx.thorough else 'Latex.cfg')
    if ctx.thorough:
        cases = [c for c in cases if len(c['basis']) < 4 or ctx.rng.random() < .12]
    ctx.sample(cases[3])
    ctx.sample(cases[-1])
    ctx.extra['scenarios'] = len(cases)
    state = {}

    def fake():
        if state.get('pid') != os.getpid():
            state['f'] = fakelatex.activate(ctx.tmp())
            state['pid'] = os.getpid()
        return state['f']

    def code(kind, i, rng, tool):
        u = 'q%dz' % i   # makes every code unique
        return {'good': u + rng.choice(GOOD if tool != 'judge' else [g for g in GOOD if '%' not in g]), 'bad': r'\undefinedmacro ' + u,
                'accents': u + '\u00e9\u00df\u4e2d', 'empty': '',
                'lone': u + rng.choice(['\ud800', '\udcff', 'x\udfffy'])}[kind]

    def do(rec, c):
        fl = fake()
        rng = rec.rng
        nsec = rng.choice([1, 2, 3])
        secs = ['s%d' % i for i in range(nsec)]
        sectors = {s: {} for s in secs}
        codes = []
        # in order of sectors, so that the document order is the definition order
        cut = sorted(rng.randint(0, len(c['basis'])) for _ in range(nsec - 1)) + [len(c['basis'])]
        for i, kind in enumerate(c['basis']):
            s = next(secs[j] for j in range(nsec) if i < cut[j])
            if kind == 'none':
                d = None
            elif kind == 'notex':
                d = rng.choice([{}, {'real': True}, {'tex': None}])
            else:
                d = {'tex': code(kind, i, rng, c['tool'])}
                if rng.random() < .5:
                    d['real'] = True
                if kind != 'empty':
                    codes.append(d['tex'])
            sectors[s]['c%d' % i] = d
        w.EFT('A', {s: {} for s in secs})
        b = w.Basis('A', 'x', sectors)
        snap = json.dumps(b.sectors)
        fl.set(c['tool'])
        try:
            r = vlib.outcome(b.validate)
        except KeyboardInterrupt:
            r = ('raise', 'KeyboardInterrupt', '')
        got = 'ok' if r[0] == 'ok' else r[1]
        rec.check(got == c['verdict'] or c['verdict'] == 'any' or c['verdict'] == 'interrupted' and got != 'ok', "the verdict is latex's", scenario=c, got=repr(r))
        if c['quoted'] and got == 'ValueError':
            rec.check(all(x in r[2] for x in fakelatex.FIRST[c['tool']]), 'the error quotes the first error of the log',
                      scenario=c, got=r[2])
        left = os.listdir(fl.tmp)
        rec.check(not left, 'no temporary file remains', scenario=c, left=left)
        rec.check(os.getcwd() == fl.cwd and not os.listdir(fl.cwd),
                  'nothing in the working directory', scenario=c, files=os.listdir(fl.cwd))
        rec.check(json.dumps(b.sectors) == snap, 'the basis is unchanged', scenario=c)
        if c['tool'] not in ('absent', 'denied', 'noexec', 'interrupt') and c['verdict'] != 'any':
            docs = fl.documents()
            if rec.check(len(docs) >= 1, 'the latex program is run', scenario=c):
                txt = '\n'.join(docs)
                rec.check(not fl.inside(), 'nothing is written to the working directory', scenario=c, files=fl.inside())
                for t in codes:
                    rec.check(txt.count(t) >= 1, 'every code is handed over as defined',
                              scenario=c, code=t, document=txt[-300:])
                rec.check(all('\\begin{document}' in d and '\\end{document}' in d and
                              '\\documentclass' in d for d in docs), 'the document is complete',
                          document=txt[:300])
                body = txt.split('\\begin{document}')[-1]
                rec.check(all(t in body for t in codes), 'codes are in the document body', scenario=c)
        for x in left:
            import shutil
            shutil.rmtree(os.path.join(fl.tmp, x), ignore_errors=True)
        rec.traces += 1

    vlib.parallel(ctx, do, cases)
    ctx.assumptions += ['the latex program is a stand-in that follows latex\'s command line (document, '
                        '-output-directory) and knows undefined macros and how $ signs delimit formulas']
