"""C20: phonetic features."""
import itertools

from mc import adapter as a, core, spec

ALPHABET = 'аЕъкЬ-'
LETTERS = 'аеёиоуыэюяАЕЁИОУЫЭЮЯбвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ'
OTHERS = '-1aZ éў'
SHORT = ['', 'а', 'к', 'ка', 'ак', 'ю', 'каю', 'аа', 'Ю', 'кА']
ACTIONS = ['syllables', 'fluent', 'autofill', 'cluster', 'serialize']
PARTIAL = ['', 'сон', 'ла', 'сна', 'Ыы']


class Check_(core.Check):
    id = 'C20'
    rule = ('state = texts of the forms (and, for histories, the sequence of questions and fill-ins); every answer is compared with the '
            'definition')
    BOUNDS = {'quick': (5, 4), 'thorough': (8, 5)}

    def shards(self, tier):
        length, history = self.BOUNDS[tier]
        yield {'kind': 'short'}
        for t in core.strings(ALPHABET, 2, 2):
            yield {'kind': 'texts', 'prefix': ''.join(t), 'length': length - 2}
        for lo, hi in core.chunks(8, len(LETTERS)):
            yield {'kind': 'letters', 'range': [lo, hi]}
        yield {'kind': 'unicode', 'limit': 0x3000 if tier == 'quick' else 0x110000}
        yield {'kind': 'long'}
        yield {'kind': 'twins'}
        for type in spec.TYPES:
            yield {'kind': 'carried', 'type': type}
        for x in range(len(SHORT)):
            yield {'kind': 'forms', 'first': x, 'wide': tier == 'thorough'}
        for x in range(len(ACTIONS)):
            for y in range(len(ACTIONS)):
                yield {'kind': 'histories', 'prefix': [x, y], 'length': history}

    def explore(self, shard, ctx):
        kind = shard['kind']
        if kind == 'short':
            for t in core.strings(ALPHABET, 2):
                self.texts(''.join(t), ctx)
        elif kind == 'texts':
            for t in core.strings(ALPHABET, shard['length'], 1):
                self.texts(shard['prefix'] + ''.join(t), ctx)
        elif kind == 'letters':
            for x in LETTERS[slice(*shard['range'])]:
                ctx.run({'kind': 'text', 'text': x})
                for y in LETTERS + OTHERS:
                    for tail in ('', 'а', 'к'):
                        ctx.run({'kind': 'text', 'text': x + y + tail})
                        ctx.run({'kind': 'text', 'text': y + x + tail})
                    ctx.run({'kind': 'forms', 'type': 'PREPOSITION', 'forms': ['к' + x, 'т' + y, '']})
                    ctx.run({'kind': 'forms', 'type': 'PREPOSITION', 'forms': [y, '', x + y]})
        elif kind == 'unicode':
            for c in range(shard['limit']):
                if not 0xD800 <= c < 0xE000:
                    ctx.run({'kind': 'text', 'text': chr(c)})
                    ctx.run({'kind': 'text', 'text': 'к' + chr(c)})
        elif kind == 'long':
            for n in list(range(6, 40)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]:
                for pattern in ('а', 'ак', 'кА', 'к', 'кЕа-', 'я ', 'ъо', 'ккккю'):
                    text = (pattern * n)[:n]
                    ctx.run({'kind': 'text', 'text': text})
                    for other in (text, text[:-1], text + 'а', text[1:], text[::-1], text[:n // 2] + 'Ю' + text[n // 2:], ''):
                        ctx.run({'kind': 'forms', 'type': 'PREPOSITION', 'forms': [text, other, '']})
                        ctx.run({'kind': 'forms', 'type': 'PREPOSITION', 'forms': [other, 'к', text]})
        elif kind == 'twins':
            for forms in itertools.product(SHORT + PARTIAL[1:] + ['ска', 'Кт'], repeat=2):
                for type in ('NOUN', 'PREPOSITION'):
                    ctx.run({'kind': 'twins', 'type': type, 'forms': list(forms)})
        elif kind == 'carried':
            # the answers do not depend on the properties of the word, its part of speech or on what is asked first
            n = spec.FORMS_NUMBER[shard['type']]
            for v in spec.VALUES:
                for forms in (['сон', 'сна', 'снам'], ['', 'сна', 'ю'], ['каю', 'ка', ''], ['ёлок', 'ёлка', 'ёлок'], ['вна', '', 'вн'], ['кора-аа', 'кора', 'ко']):
                    for where in (0, max(0, n - 3)):
                        texts = [''] * n
                        for i, t in enumerate(forms):
                            if where + i < n:
                                texts[where + i] = t
                        if where and n > 3:
                            texts[0] = forms[0]
                        ctx.run({'kind': 'forms', 'type': shard['type'], 'forms': texts, 'fixed': [v]})
        elif kind == 'forms':
            x = SHORT[shard['first']]
            for rest in itertools.product(SHORT, repeat=2):
                ctx.run({'kind': 'forms', 'type': 'PREPOSITION', 'forms': [x] + list(rest)})
                for filler in ('', None):
                    for i in range(1, 18):
                        for j in range(i + 1, 18) if shard['wide'] else {min(i + 1, 17), 17} - {i}:
                            forms = [x] + [x if filler is None else filler] * 17
                            forms[i], forms[j] = rest
                            ctx.run({'kind': 'forms', 'type': 'NOUN', 'forms': forms})
            for type in ('ADJECTIVE', 'VERB', 'PARTICIPLE', 'PRONOUN'):
                n = spec.FORMS_NUMBER[type]
                for y in SHORT:
                    for i in range(1, n):
                        ctx.run({'kind': 'forms', 'type': type, 'forms': [x] * i + [y] + [''] * (n - i - 1)})
        else:
            for n in range(shard['length'] - 1):
                for rest in itertools.product(range(len(ACTIONS)), repeat=n):
                    history = shard['prefix'] + list(rest)
                    for forms in itertools.product(PARTIAL, repeat=3):
                        ctx.run({'kind': 'history', 'type': 'PREPOSITION', 'forms': list(forms), 'history': history})
                    for forms in (['', 'сон', 'ла'], ['сон', '', 'сна'], ['', '', 'аю'], ['', '', '']):
                        ctx.run({'kind': 'history', 'type': 'NOUN', 'forms': (forms + [''] * 15)[:18], 'history': history})
                        ctx.run({'kind': 'history', 'type': 'NOUN', 'forms': [''] * 15 + forms, 'history': history})

    def texts(self, text, ctx):
        ctx.run({'kind': 'text', 'text': text})
        for other in ('', 'а', 'Е', 'ка', 'аЕа'):
            ctx.run({'kind': 'forms', 'type': 'PREPOSITION', 'forms': [text, other, '']})
            ctx.run({'kind': 'forms', 'type': 'PREPOSITION', 'forms': [other, '', text]})

    def run_case(self, case, ctx):
        getattr(self, 'case_' + case['kind'])(case, ctx)

    def check(self, model, w, what=''):
        a.equal(what + 'number of syllables', model.syllables(), w.number_of_syllables)
        a.equal(what + 'fluent vowel', model.fluent(), bool(w.has_fluent_vowel))

    def case_text(self, case, ctx):
        model = spec.W('TEXT', [case['text']])
        ctx.state(case['text'])
        ctx.step(4)
        w = a.word(model)
        self.check(model, w)
        a.equal('consonant cluster', spec.F(model).cluster(), bool(a.words.WordForm(w).starts_with_consonant_cluster))
        upper = spec.F(model, {'WORD_CASE': 'UPPER'})
        a.equal('consonant cluster of the capitalised form', upper.cluster(),
                bool(a.words.WordForm(w, properties=a.properties(upper.props)).starts_with_consonant_cluster))

    def case_forms(self, case, ctx):
        model = spec.W(case['type'], case['forms'], spec.props(*case.get('fixed', ())))
        ctx.state((case['type'], tuple(case['forms']), tuple(case.get('fixed', ()))))
        ctx.step(2)
        w = a.word(model)
        self.check(model, w)
        self.check(model, w, 'second time: ')
        for v in case.get('fixed', ()):
            for owner, props in ((model, {}), (spec.W(case['type'], case['forms']), spec.props(v))):
                form = spec.F(owner, props)
                a.equal('consonant cluster', form.cluster(), bool(a.form(form).starts_with_consonant_cluster))

    def case_twins(self, case, ctx):
        """forms of one word that differ only in their text, one after the other"""
        type = case['type']
        model = spec.W(type, case['forms'] + [''] * (spec.FORMS_NUMBER[type] - 2))
        ctx.state((type, tuple(case['forms'])))
        sets = [spec.slot_props(type, 0), spec.slot_props(type, 1), {'WORD_CASE': 'UPPER'}]
        for w in (a.word(model), None):
            for props, form_props in list(itertools.product(sets, sets)) + list(itertools.product(sets, sets))[::-1]:
                ctx.step()
                form = spec.F(model, props, form_props)
                a.equal('consonant cluster of the form with properties %r, form properties %r' % (props, form_props), form.cluster(), bool(a.form(form, w).starts_with_consonant_cluster))

    def case_history(self, case, ctx):
        model = spec.W(case['type'], case['forms'])
        w = a.word(model)
        key = tuple(case['forms'])
        for n, i in enumerate(case['history']):
            action = ACTIONS[i]
            ctx.state((case['type'], key, tuple(case['history'][:n + 1])))
            ctx.step()
            what = 'step %d of %s: ' % (n + 1, [ACTIONS[x] for x in case['history']])
            if action == 'autofill':
                model.autofill()
                w.autofill_missed_forms()
                a.equal(what + 'forms', model.forms, list(w.forms))
            elif action == 'syllables':
                a.equal(what + 'number of syllables', model.syllables(), w.number_of_syllables)
            elif action == 'fluent':
                a.equal(what + 'fluent vowel', model.fluent(), bool(w.has_fluent_vowel))
            elif action == 'cluster':
                for p in ({}, {'NUMBER': 'PLURAL', 'PREPOSITION_FORM': 'SPECIAL', 'WORD_CASE': 'UPPER'}):
                    a.equal(what + 'consonant cluster', spec.F(model, p).cluster(),
                            bool(a.words.WordForm(w, properties=a.properties(p)).starts_with_consonant_cluster))
            else:
                copy = a.words.Word.deserialize(dict(w.serialize(), forms=list(w.forms)))
                if action == 'serialize':
                    self.check(model, copy, what + 'copy: ')
        self.check(model, w, 'after %s: ' % [ACTIONS[x] for x in case['history']])

    def shrink(self, case):
        if case['kind'] == 'history':
            for i in range(len(case['history'])):
                yield dict(case, history=case['history'][:i] + case['history'][i + 1:])
