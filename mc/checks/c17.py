"""C17: report of missing words against generation."""
import itertools

from mc import adapter as a, core, pools, spec

HERO = spec.F(spec.W('NOUN', ['герой%d' % i for i in range(18)], {'ANIMALITY': 'ANIMATE', 'GENDER': 'MASCULINE'}))
EXTERNALS = {'герой': HERO,
             'слово1': spec.F(spec.W('NOUN', ['своё%d' % i for i in range(18)], {'ANIMALITY': 'INANIMATE', 'GENDER': 'FEMININE'})),
             'Имя': spec.F(spec.W('TEXT', ['Имя'])),
             'число': spec.integer(5)}
# names that look like what is written in the text, none of which a substitution refers to
LOOKALIKES = ['СЛОВО0', 'Слово0', 'НЕТ', 'Нет', ' нет', 'нет ', ' НЕТ ', '[нет]', 'не', 'нет|число', 'СЛОВО17', 'КУДА', 'Куда', 'ПРИЛ', 'ПРИЛ1', 'Ё', 'е', 'ИМЯ', 'слово',
              '', 'ГЕРОЙ', 'Герой', 'по  пути', 'ПО ПУТИ', 'Другое']
PARSE = ('герой', 'слово1', 'Имя', 'число')
WORDS = [spec.W('NOUN', ['слово%d' % i for i in range(18)], {'ANIMALITY': 'INANIMATE', 'GENDER': 'NEUTER'}),
         spec.W('ADJECTIVE', ['ПРИЛ'] + ['прил%d' % i for i in range(1, 101)]),
         spec.W('PREPOSITION', ['по пути', 'Куда', ''])]
PIECES = ['[герой]', '[Герой|мн]', '[слово0]', '[Слово0|герой]', '[слово1]', '[СЛОВО17|рд]', '[нет]', '[Нет|герой]', '[ НЕТ |мн]',
          '[нет|число]', '[ПРИЛ]', '[прил]', '[прил1|герой,мн]', '[прил1|число|слово1]', '[имя]', '[Имя]', '[по пути|герой]', '[куда]', '[ё]',
          '[слово0|число|герой]', '[слово1|мн]', '[Слово1|слово1|рд]', '[другое|слово1]', '[число]', '[герои|слово0]']
PIECES = [p for p in PIECES if p not in ('[прил1|герой,мн]', '[герои|слово0]')]      # those do not parse: see C05
LITERAL = ['%', ' и ', '[]', '']


def variants(thorough):
    names = list(EXTERNALS)
    for n in range(len(names) + 1):
        for c in itertools.combinations(names, n):
            yield list(c)


DICTIONARIES = [[], [0], [1, 2], [0, 1, 2]]


class Check_(core.Check):
    id = 'C17'
    rule = ('state = (template, supplied variables, dictionary); every sequence of substitutions up to the bound with every subset of '
            'variables and every dictionary; report and generation of the same parsed template, also after storing and loading')
    BOUNDS = {'quick': 3, 'thorough': 4}

    def prepare(self, tier):
        self.dictionaries = [(spec.D([WORDS[i] for i in d]), a.make_dictionary([WORDS[i] for i in d])) for d in DICTIONARIES]
        self.externals = {n: a.form(f) for n, f in EXTERNALS.items()}
        self.subsets = [(s, {n: EXTERNALS[n] for n in s}, {n: self.externals[n] for n in s}) for s in variants(True)]
        everything = dict(EXTERNALS, **{n: HERO for n in LOOKALIKES})
        real = dict(self.externals, **{n: self.externals['герой'] for n in LOOKALIKES})
        looks = [LOOKALIKES, ['герой', 'число'] + LOOKALIKES, ['слово1', 'Имя'] + LOOKALIKES[::2], LOOKALIKES[1::2]]
        self.lookalikes = [(s, {n: everything[n] for n in s}, {n: real[n] for n in s}) for s in looks]

    def shards(self, tier):
        yield {'kind': 'short'}
        yield {'kind': 'growing'}
        for lo, hi in core.chunks(8, len(pools.NAMES)):
            yield {'kind': 'named', 'range': [lo, hi]}
        for i in range(8):
            yield {'kind': 'sizes', 'part': i}
        for x in range(len(PIECES)):
            for y in range(len(PIECES)):
                yield {'kind': 'long', 'prefix': [x, y], 'length': self.BOUNDS[tier]}

    def explore(self, shard, ctx):
        everything = range(len(PIECES))
        if shard['kind'] == 'short':
            ctx.run({'pieces': [], 'subsets': True})
            for x in everything:
                ctx.run({'pieces': [x], 'subsets': True})
                for y in everything:
                    ctx.run({'pieces': [x, y], 'subsets': True})
        elif shard['kind'] == 'named':
            for i in range(*shard['range']):
                ctx.run({'named': pools.NAMES[i], 'beside': pools.FEW[i * 5 % len(pools.FEW)]})
        elif shard['kind'] == 'sizes':
            for n in list(range(4, 40)) + [64, 65, 99, 100, 101, 128, 200]:
                if n % 8 == shard['part']:
                    for x in everything:
                        for step in (0, 1, 3, 7):
                            ctx.run({'pieces': [(x + i * step) % len(PIECES) for i in range(n)], 'subsets': False})
                    for style in range(3):
                        ctx.run({'absent': n, 'style': style})
        elif shard['kind'] == 'growing':
            for order in itertools.permutations(range(len(WORDS))):
                for x in everything:
                    for y in everything:
                        ctx.run({'grow': list(order), 'pieces': [x, y]})
        else:
            for n in range(3, shard['length'] + 1):
                for rest in itertools.product(everything, repeat=n - 2):
                    ctx.run({'pieces': shard['prefix'] + list(rest), 'subsets': n <= 3})

    def text(self, pieces):
        return ''.join(LITERAL[i % len(LITERAL)] + PIECES[p] for i, p in enumerate(pieces)) + '%s'

    def run_case(self, case, ctx):
        if 'absent' in case:
            return self.absent(case, ctx)
        if 'named' in case:
            return self.named(case, ctx)
        text = self.text(case['pieces'])
        model = spec.T(text, PARSE)
        template = a.template(text, PARSE)
        if 'grow' in case:
            return self.grow(case, ctx, model, template)
        stored = a.templates.Template.deserialize(template.serialize())
        for d, (md, rd) in enumerate(self.dictionaries):
            if not case['subsets'] and d in (1, 2):
                continue
            for names, me, re in self.subsets + self.lookalikes if case['subsets'] else self.subsets[::5] + self.subsets[-2:] + self.lookalikes[1:2]:
                ctx.state((text, tuple(names), d))
                ctx.step(3)
                self.one(model, template, names, me, re, md, rd, d)
        ctx.step(1)
        names, me, re = self.subsets[5]
        self.one(model, stored, names, me, re, *self.dictionaries[3], 3)

    def one(self, model, template, names, me, re, md, rd, d):
        what = 'variables %s, words %s: ' % (names, DICTIONARIES[d])
        report = template.get_undictionaried_words(externals=re, dictionary=rd)
        a.equal(what + 'report', model.missing(me, md), list(report))
        a.spoil(report)
        a.equal(what + 'report for names only', model.missing(me, md), list(template.get_undictionaried_words(externals=list(names), dictionary=rd)))
        expected = a.model_outcome(model.substitute, me, md)
        got = a.outcome(template.substitute, re, rd)
        a.compare(what + 'generation', expected, got)
        a.equal(what + 'report asked again', model.missing(me, md), list(template.get_undictionaried_words(externals=re, dictionary=rd)))

    def grow(self, case, ctx, model, template):
        """words are added between reports"""
        md, rd = spec.D(), a.dictionary.Dictionary()
        names, me, re = self.subsets[1]
        for i in case['grow']:
            ctx.state(('grow', tuple(case['grow']), tuple(case['pieces']), i))
            ctx.step(2)
            self.one(model, template, names, me, re, md, rd, 0)
            md.add(WORDS[i])
            rd.add_word(a.word(WORDS[i]))
        self.one(model, template, names, me, re, md, rd, 0)

    def named(self, case, ctx):
        """odd names, each of them supplied or not and in the dictionary or not"""
        one, two = case['named'], case['beside']
        model_forms = {one: HERO, two: EXTERNALS['число'], 'герой': HERO}
        real_forms = {one: self.externals['герой'], two: self.externals['число'], 'герой': self.externals['герой']}
        text = '[{1}][{2}|{1}] [{2}|герой]%[{1}|мн|{2}]'.replace('{1}', one).replace('{2}', two)
        model, template = spec.T(text, (one, two, 'герой')), a.template(text, (one, two, 'герой'))
        words = [spec.W('TEXT', [one]), spec.W('NOUN', [two] + ['x%d' % i for i in range(17)])]
        for known in ([], [0], [1], [0, 1]):
            md, rd = spec.D([words[i] for i in known]), a.make_dictionary([words[i] for i in known])
            for names in ([], [one], [two], [one, two], ['герой'], [one, two, 'герой']):
                ctx.state((text, tuple(names), tuple(known)))
                ctx.step(3)
                self.one(model, template, names, {n: model_forms[n] for n in names}, {n: real_forms[n] for n in names}, md, rd, 0)

    def absent(self, case, ctx):
        """n different names; the dictionary learns them one by one, the report shrinks accordingly"""
        n = case['absent']
        names = ['Слово%d' % i for i in range(n)]
        order = {0: names, 1: names[::-1] + names, 2: [names[i * i % n] for i in range(2 * n)]}[case['style']]
        text = '[%s|герой]' % '|герой]['.join(order)
        text = '[%s]' % ']['.join(order) + text
        model, template = spec.T(text, PARSE), a.template(text, PARSE)
        md, rd = spec.D(), a.dictionary.Dictionary()
        me, re = {'герой': EXTERNALS['герой']}, {'герой': self.externals['герой']}
        for i in range(n + 1):
            if i < 12 or i % 9 == 0 or i > n - 3:
                ctx.state(('absent', n, case['style'], i))
                ctx.step(2)
                self.one(model, template, ['герой'], me, re, md, rd, 0)
            if i < n:
                w = spec.W('TEXT', ['слово%d' % (i * 7 % n if n % 7 else i)])
                md.add(w)
                rd.add_word(a.word(w))

    def shrink(self, case):
        if 'named' in case:
            return
        if 'absent' in case:
            for n in range(1, case['absent']):
                yield dict(case, absent=n)
            return
        for i in range(len(case['pieces'])):
            yield dict(case, pieces=case['pieces'][:i] + case['pieces'][i + 1:])
