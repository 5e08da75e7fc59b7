"""C01: form selection for all requests x all fixed properties of the word."""
import itertools

from mc import adapter as a, core, spec
from mc.checks import c15


def labels(type):
    return ['%s%d' % (type.lower(), i) for i in range(spec.FORMS_NUMBER[type])]


def assignments(type):
    return list(core.partial_assignments(spec.SCHEMA[type], spec.NAMES))


RICH = c15.full_sets()


class Check_(core.Check):
    id = 'C01'
    rule = ('case = (part of speech, properties fixed on the word); for every such word, all full and partial requests '
            'over the inflected categories are executed; a state is one (type, fixed, request) configuration')

    def shards(self, tier):
        for type in spec.TYPES:
            n = len(assignments(type))
            # fixed properties: nothing, every single value of every relation
            fixed = [[]] + [[v] for v in spec.VALUES]
            for lo, hi in core.chunks(8 if n > 500 else 2, len(fixed)):
                yield {'kind': 'fixed', 'type': type, 'fixed': fixed[lo:hi]}
            # every partial assignment of the schema fixed on the word
            everything = [a.values_of(p) for p in assignments(type)]
            if tier == 'quick':
                everything = [f for f in everything if len(f) == 2 or (len(f) == len(spec.SCHEMA[type]) and len(f) > 2)]
                if len(everything) > 150:
                    everything = [f for f in everything if len(f) == 2]
            for lo, hi in core.chunks(24 if n > 500 else 2, len(everything)):
                yield {'kind': 'fixed', 'type': type, 'fixed': everything[lo:hi]}
            # properties the type does not inflect for, singly and in pairs, never matter
            other = [v for v in spec.VALUES if spec.split(v)[0] not in spec.SCHEMA[type]]
            noise = [[v] for v in other]
            if tier == 'thorough' or n < 100:
                noise += [list(c) for c in itertools.combinations(other, 2)]
            for lo, hi in core.chunks(12, len(noise)):
                yield {'kind': 'noise', 'type': type, 'noise': noise[lo:hi]}
            yield {'kind': 'list', 'type': type}
            for lo, hi in core.chunks(4, len(spec.VALUES)):
                yield {'kind': 'carried', 'type': type, 'range': [lo, hi]}
            for lo, hi in core.chunks(2, len(RICH)):
                yield {'kind': 'rich', 'type': type, 'range': [lo, hi]}
            # every partial assignment fixed on the word, with a representative part of the requests
            for lo, hi in core.chunks(16 if n > 500 else 1, n):
                yield {'kind': 'thin', 'type': type, 'range': [lo, hi]}

    def explore(self, shard, ctx):
        type = shard['type']
        if shard['kind'] == 'fixed':
            for fixed in shard['fixed']:
                ctx.run({'kind': 'fixed', 'type': type, 'fixed': fixed})
        elif shard['kind'] == 'thin':
            everything = assignments(type)
            for i in range(*shard['range']):
                fixed = a.values_of(everything[i])
                if len(fixed) > 1:
                    ctx.run({'kind': 'thin', 'type': type, 'fixed': fixed, 'start': i})
        elif shard['kind'] == 'carried':
            # any property in the request together with properties fixed on the word
            own = [v for v in spec.VALUES if spec.split(v)[0] in spec.SCHEMA[type]]
            for i in range(*shard['range']):
                for k, v in enumerate(own if type != 'TEXT' else spec.VALUES):
                    ctx.run({'kind': 'thin', 'type': type, 'fixed': [v], 'start': i + 7 * k, 'noise': [spec.VALUES[i]]})
                    ctx.run({'kind': 'thin', 'type': type, 'fixed': [v] + [spec.VALUES[i]], 'start': i + 7 * k, 'noise': [v]})
        elif shard['kind'] == 'rich':
            # many properties at once: fixed on the word, requested, and both
            for i in range(*shard['range']):
                rich, other = list(RICH[i]), list(RICH[i * 7 % len(RICH)])
                ctx.run({'kind': 'list', 'type': type, 'fixed': rich, 'forms': 'distinct'})
                ctx.run({'kind': 'thin', 'type': type, 'fixed': rich, 'start': i})
                ctx.run({'kind': 'thin', 'type': type, 'fixed': [], 'start': i, 'noise': rich})
                ctx.run({'kind': 'thin', 'type': type, 'fixed': other, 'start': i, 'noise': rich})
                for fixed in ([], other[:2], other):
                    ctx.run({'kind': 'two', 'type': type, 'fixed': fixed, 'requested': rich, 'start': i})
        elif shard['kind'] == 'noise':
            for noise in shard['noise']:
                ctx.run({'kind': 'noise', 'type': type, 'noise': noise})
        else:
            n = spec.FORMS_NUMBER[type]
            for fixed in [[]] + [[v] for v in spec.VALUES] + [a.values_of(p) for p in assignments(type)]:
                ctx.run({'kind': 'list', 'type': type, 'fixed': fixed, 'forms': 'distinct'})
            for i in range(n):
                ctx.run({'kind': 'list', 'type': type, 'fixed': [], 'forms': i})
                ctx.run({'kind': 'list', 'type': type, 'fixed': [], 'forms': -1 - i})

    def run_case(self, case, ctx):
        getattr(self, 'case_' + case['kind'])(case, ctx)

    def check_request(self, model, word, request, ctx, extra=()):
        expected = model.text(spec.props(request, *extra))
        asked = a.properties(spec.props(request, *extra))
        got = word.form(asked)
        if got != expected:
            raise core.Mismatch('Word.form for request %s, fixed %s' % (request, model.props), expected, got)
        if a.words.WordForm(word, properties=asked).form != spec.F(model, spec.props(request, *extra)).text:
            raise core.Mismatch('WordForm.form for request %s, fixed %s' % (request, model.props),
                                spec.F(model, spec.props(request, *extra)).text,
                                a.words.WordForm(word, properties=asked).form)
        final = spec.props(request, *(tuple(extra) + (model.props,)))
        got = a.words.WordForm.get_form(word, a.properties(final))
        if got != spec.raw_text(model, final):
            raise core.Mismatch('WordForm.get_form for %s' % final, spec.raw_text(model, final), got)
        ctx.step(3)

    def case_fixed(self, case, ctx):
        type = case['type']
        model = spec.W(type, labels(type), spec.props(*case['fixed']))
        word = a.word(model)
        requests = [case['request']] if 'request' in case else assignments(type)
        for request in requests:
            ctx.state()
            self.check_request(model, word, request, ctx)
        a.equal('normal form', model.normal(), word.normal_form())

    def case_thin(self, case, ctx):
        type = case['type']
        model = spec.W(type, labels(type), spec.props(*case['fixed']))
        word = a.word(model)
        everything = assignments(type)
        for k in range(min(12, len(everything))):
            # a different part of the requests for every word
            request = everything[(case['start'] * 31 + k * 251) % len(everything)]
            ctx.state()
            self.check_request(model, word, request, ctx, extra=case.get('noise', ()))
        a.equal('normal form', model.normal(), word.normal_form())

    def case_two(self, case, ctx):
        """a form with one set of properties for its text and another one for what depends on it"""
        type = case['type']
        model = spec.W(type, labels(type), spec.props(*case['fixed']))
        word = a.word(model)
        everything = assignments(type)
        for k in range(min(8, len(everything))):
            other = everything[(case['start'] * 31 + k * 251) % len(everything)]
            for shown, text in ((case['requested'], other), (other, case['requested']), (case['requested'], {}), ({}, case['requested'])):
                shown, text = (spec.props(*x) if isinstance(x, list) else dict(x) for x in (shown, text))
                ctx.state()
                ctx.step(3)
                expected = spec.F(model, shown, text)
                got = a.words.WordForm(word, properties=a.properties(shown), form_properties=a.properties(text))
                a.equal('text of a form with %s, text by %s' % (shown, text), expected.text, got.form)
                a.equal('properties of a form with %s, text by %s' % (shown, text), expected.props, a.observe(got.properties))

    def case_noise(self, case, ctx):
        type = case['type']
        model = spec.W(type, labels(type))
        word = a.word(model)
        requests = [case['request']] if 'request' in case else assignments(type)
        for request in requests:
            ctx.state()
            self.check_request(model, word, request, ctx, extra=case['noise'])
            expected = model.text(request)
            got = word.form(a.properties(spec.props(request, *case['noise'])))
            a.equal('property outside of the schema changes the form', expected, got)

    def case_list(self, case, ctx):
        type = case['type']
        forms = labels(type)
        if case['forms'] != 'distinct':
            i = case['forms']
            forms = [f if (k == i) == (i >= 0) else '' for k, f in enumerate(forms)] if i >= 0 else \
                [f if k != -1 - i else '' for k, f in enumerate(forms)]
        model = spec.W(type, forms, spec.props(*case['fixed']))
        word = a.word(model)
        ctx.state((type, tuple(case['fixed']), case['forms']))
        expected = model.all_forms()
        got = list(word.all_forms())
        a.equal('number of listed forms', len(expected), len(got))
        for i, (e, g) in enumerate(zip(expected, got)):
            ctx.step()
            a.equal('properties of listed form %d' % i, e.props, a.observe(g.properties))
            a.equal('text of listed form %d' % i, e.text, g.form)
            if g.word is not word:
                raise core.Mismatch('listed form %d belongs to another word' % i)
            if not case['fixed']:
                a.equal('listed form %d' % i, forms[i], g.form)

    def shrink(self, case):
        if case['kind'] in ('fixed', 'noise') and 'request' not in case:
            for request in assignments(case['type']):
                yield dict(case, request=request)
        for field in ('fixed', 'noise'):
            for i in range(len(case.get(field, ()))):
                yield dict(case, **{field: case[field][:i] + case[field][i + 1:]})
