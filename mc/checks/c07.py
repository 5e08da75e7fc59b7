"""C07: all histories of additions to a dictionary, breadth first over model states."""
import itertools

from mc import adapter as a, core, pools, spec
from mc.checks import c15


def noun(n, sing, plur, *fixed):
    return spec.W('NOUN', [sing] * n + [plur] * (18 - n), spec.props(*fixed))


# words that collide with each other in many ways
POOL = [
    spec.W('NOUN', ['а'] * 18),
    spec.W('NOUN', ['а'] * 18, {'ANIMALITY': 'INANIMATE'}),                   # same forms, other properties
    spec.W('NOUN', ['а'] * 18, {'GENDER': 'FEMININE', 'ANIMALITY': 'INANIMATE'}),
    spec.W('NOUN', ['а'] * 18, {'GENDER': 'FEMININE'}),                       # tie with the second one
    spec.W('NOUN', ['б'] + ['а'] * 16 + ['в']),
    spec.W('NOUN', ['а'] * 17 + ['б'], {'NUMBER': 'PLURAL'}),
    spec.W('VERB', ['а', 'б'] + ['в'] * 18),
    spec.W('VERB', ['б', 'а'] + ['г'] * 18, {'ASPECT': 'PERFECTIVE'}),
    spec.W('PREPOSITION', ['а', 'аб', 'б']),
    spec.W('TEXT', ['а']),
    spec.W('TEXT', ['б'], {'WORD_CASE': 'UPPER'}),
    spec.W('INTEGER', ['в'], {'INTEGER_FORM': 'DUAL'}),
    spec.W('ADJECTIVE', ['в'] * 50 + ['а'] * 51),
    spec.W('PRONOUN', ['г'] * 24 + ['б'] * 24, {'PERSON': 'THIRD', 'NUMBER': 'PLURAL'}),
    spec.W('PARTICIPLE', ['г'] * 100 + ['а'] * 48, {'VOICE': 'REVERSE'}),
    spec.W('NOUN', ['Д'] * 9 + [''] * 9),
]
QUERIES = ['а', 'б', 'в', 'г', 'д', 'Д', 'аб', 'ба', 'А', 'Б', 'В', ' а', 'а ', 'x', '%', 'а%', 'аа']
SMALL = [0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 13]


FULL = c15.full_sets()
RELATED = ['', ' ', 'Я', 'а', 'тт', 'я', 'ё', 'z', 'т']


def many(case):
    """n words with common texts, in several orders"""
    n = case['many']
    if case['kind'] == 0:      # one common text, forms decide
        words = [spec.W('NOUN', ['т'] + ['%04d' % i] * 16 + ['т']) for i in range(n)]
    elif case['kind'] == 1:    # a common text for neighbours, parts of speech decide
        words = [spec.W(t, ['w%d' % (i // 2)] * spec.FORMS_NUMBER[t]) for i in range(n) for t in [('PREPOSITION', 'NOUN', 'TEXT', 'VERB', 'INTEGER')[i * 7 % 5]]]
    elif case['kind'] == 2:    # same forms, properties decide, complete ties are resolved by age
        words = [spec.W('TEXT', ['т'], spec.props(*FULL[i * 37 % len(FULL)][:1 + i % 5])) for i in range(n)]
    else:                      # different words
        words = [spec.W('NOUN', ['w%d_%d' % (i, k) for k in range(18)]) for i in range(n)]
    order = {0: range(n), 1: range(n - 1, -1, -1), 2: list(range(0, n, 2)) + list(range(1, n, 2)),
             3: list(range(n // 2, n)) + list(range(n // 2)), 4: sorted(range(n), key=lambda i: i * 7919 % n),
             5: list(range(n)) * 2}[case['order']]
    return [words[i] for i in order], ['т'] + ['w%d' % i for i in range(n)] + [w.forms[i % len(w.forms)] for i, w in enumerate(words)] + ['w', 'w0_', '']


class Check_(core.Check):
    id = 'C07'
    rule = ('case = sequence of added words; state = content of the model dictionary after a prefix; after every addition all '
            'texts are looked up')

    def shards(self, tier):
        n = len(POOL)
        for x in range(n):
            for y in range(n):
                yield {'prefix': [x, y], 'pool': list(range(n)), 'length': 3 if tier == 'quick' else 4}
        for x in SMALL:
            for y in SMALL:
                yield {'prefix': [x, y], 'pool': SMALL, 'length': 4 if tier == 'quick' else 5, 'only': True}
        yield {'short': True}
        for type in spec.TYPES:
            yield {'rank': type}
        yield {'pairs': True}
        for i in range(16):
            yield {'texts': i}
            yield {'properties': i}
        yield {'many': True}
        for lo, hi in core.chunks(8, len(pools.NAMES)):
            yield {'shapes': [lo, hi]}
        yield {'patterns': True}

    def explore(self, shard, ctx):
        if 'short' in shard:
            ctx.run({'words': []})
            for x in range(len(POOL)):
                ctx.run({'words': [x]})
            return
        if 'rank' in shard:
            # every pair of slots of one word with equal text
            type = shard['rank']
            n = spec.FORMS_NUMBER[type]
            for i in range(n):
                for j in range(i + 1, n):
                    if n < 50 or ctx.tier == 'thorough' or j == i + 1 or i in (0, n // 2):
                        ctx.run({'twins': [type, i, j]})
            return
        if 'texts' in shard:
            # the lists of forms of two words that share a text stand in every relation to each other
            triples = list(itertools.product(RELATED, repeat=2))
            everything = [(k, t) for k in range(3) for t in triples]
            for n, x in enumerate(everything):
                if n % 16 == shard['texts']:
                    for y in everything:
                        ctx.run({'related': [x, y]})
            return
        if 'properties' in shard:
            chosen = list(c15.sets(c15.REDUCED, 2)) + FULL[::40]
            for n, x in enumerate(chosen):
                if n % 16 == shard['properties']:
                    for y in chosen:
                        for type in ('NOUN', 'VERB', 'TEXT'):
                            ctx.run({'types': [type, type], 'fixed': [x, y]})
            return
        if 'patterns' in shard:
            # words with missing forms
            words = [(t, p) for t in spec.TYPES for p in ('all', 'none', 'first', 'last', 'rest') if spec.FORMS_NUMBER[t] > 1 or p in ('all', 'none')]
            for x in words:
                ctx.run({'missing': [x]})
                for y in words:
                    ctx.run({'missing': [x, y]})
            return
        if 'many' in shard:
            for n in list(range(3, 30)) + [64, 100, 257]:
                for order in range(6):
                    for kind in range(4):
                        ctx.run({'many': n, 'order': order, 'kind': kind})
            return
        if 'shapes' in shard:
            # texts of every shape, as they are and capitalised
            for i in range(*shard['shapes']):
                for style in range(4):
                    ctx.run({'shape': i, 'style': style})
            return
        if 'pairs' in shard:
            # every pair of words of different types
            for t1, t2 in itertools.permutations(spec.TYPES, 2):
                for f1, f2 in itertools.product([[], ['CASE.GENITIVE'], ['NUMBER.PLURAL', 'GENDER.NEUTER']], repeat=2):
                    ctx.run({'types': [t1, t2], 'fixed': [f1, f2]})
            return
        lengths = [shard['length'] - 2] if 'only' in shard else range(shard['length'] - 1)
        for length in lengths:
            for rest in itertools.product(shard['pool'], repeat=length):
                ctx.run({'words': shard['prefix'] + list(rest)})
                if length <= 1 or ctx.tier == 'thorough':
                    ctx.run({'words': shard['prefix'] + list(rest), 'asked': True})

    def run_case(self, case, ctx):
        if 'words' in case:
            sequence = [POOL[i] for i in case['words']]
            queries = QUERIES
        elif 'twins' in case:
            type, i, j = case['twins']
            forms = ['f%d' % k for k in range(spec.FORMS_NUMBER[type])]
            forms[i] = forms[j] = 'twin'
            sequence, queries = [spec.W(type, forms)], ['twin', 'f0', 'f%d' % i, 'f%d' % j]
        elif 'related' in case:
            sequence = [spec.W('PREPOSITION', list(others[:k]) + ['т'] + list(others[k:])) for k, others in case['related']]
            queries = ['т'] + sequence[0].forms + sequence[1].forms
        elif 'missing' in case:
            sequence = []
            for t, pattern in case['missing']:
                n = spec.FORMS_NUMBER[t]
                sequence.append(spec.W(t, {'all': ['x'] * n, 'none': [''] * n, 'first': ['x'] + [''] * (n - 1), 'last': [''] * (n - 1) + ['x'],
                                           'rest': [''] + ['x'] * (n - 1)}[pattern]))
            queries = ['', 'x', ' ']
        elif 'many' in case:
            sequence, queries = many(case)
        elif 'shape' in case:
            text, other = pools.NAMES[case['shape']], pools.FEW[case['shape'] * 7 % len(pools.FEW)]
            if case['style'] % 2:
                text = text[:1].upper() + text[1:]
            sequence = [spec.W('PREPOSITION', [text, other, text + other]), spec.W('NOUN', [other] * 9 + [text] * 8 + [''], {'GENDER': 'FEMININE'}),
                        spec.W('NOUN', [other] * 8 + [text] * 9 + ['я'])]
            if case['style'] > 1:
                sequence.reverse()
            queries = [text, other, text + other, other + text, text.lower(), text.upper(), ' ' + text, text + ' ', text[1:], text[:-1]]
        else:
            sequence = [spec.W(t, ['x'] * spec.FORMS_NUMBER[t], spec.props(*f)) for t, f in zip(case['types'], case['fixed'])]
            queries = ['x', 'X']
        model, real = spec.D(), a.dictionary.Dictionary()
        if not sequence:
            self.lookup(model, real, queries, ctx)
        for n, w in enumerate(sequence):
            if case.get('asked'):
                # what was asked of an earlier state, known or not, must not be remembered
                for text in queries:
                    real.has_word(text), a.outcome(real.get_word, text)
                a.spoil(real.get_words())
            model.add(w)
            real.add_word(a.word(w))
            # prefixes of the sequence are cases of their own: only the last state needs the lookups
            if n == len(sequence) - 1:
                self.lookup(model, real, queries, ctx)
        if len(sequence) == 2:
            one_go = a.dictionary.Dictionary(words=[a.word(w) for w in sequence])
            self.lookup(model, one_go, queries, ctx)
            self.lookup(model, a.dictionary.Dictionary(words=(a.word(w) for w in sequence)), queries, ctx)

    def lookup(self, model, real, queries, ctx):
        ctx.state(tuple(sorted((t, f.key()) for t, f in model.data.items() if t)))
        for text in queries:
            ctx.step()
            if real.has_word(text) != (text in model.data):
                raise core.Mismatch('is %r known' % text, text in model.data, real.has_word(text))
            expected = a.model_outcome(model.get, text)
            got = a.outcome(real.get_word, text)
            if expected[0] == 'ok':
                expected = ('ok', expected[1].key())
                if got[0] == 'ok':
                    if got[1].form != model.data[text].text or got[1].form != text:
                        raise core.Mismatch('text of the form found for %r' % text, text, got[1].form)
                    got = ('ok', a.observe_form(got[1]))
            a.compare('lookup of %r' % text, expected, got)
        words = {f.word.key() for t, f in model.data.items() if t}
        found = {a.observe_word(w) for w in real.get_words()}
        everything = words | {f.word.key() for t, f in model.data.items()}
        if not words <= found <= everything:
            raise core.Mismatch('words of the dictionary', sorted(everything), sorted(found))
        a.spoil(real.get_words())
        if {a.observe_word(w) for w in real.get_words()} != found:
            raise core.Mismatch('words of the dictionary listed again', sorted(found), 'others')

    def shrink(self, case):
        if 'many' in case:
            for n in range(2, case['many']):
                yield dict(case, many=n)
            return
        if case.get('asked'):
            yield {'words': case['words']}
        for i in range(len(case.get('words', ()))):
            yield dict(case, words=case['words'][:i] + case['words'][i + 1:])
