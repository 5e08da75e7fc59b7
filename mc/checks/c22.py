"""C22: whole sentences, from the description of words to the generated text, along every equivalent way."""
import itertools
import json

from mc import adapter as a, core, spec


# ---------------------------------------------------------------------------------------------- words, described as a user does

def noun(forms, *fixed):
    """6 singular and 6 plural forms ('' where the user gives none); the counting forms are filled in"""
    forms = forms.split() if isinstance(forms, str) else forms
    return spec.W('NOUN', [f.strip('-') for f in forms] + [''] * (18 - len(forms)), spec.props(*fixed))


ENDINGS = {'MASCULINE': 'ый ого ому ый ым ом', 'NEUTER': 'ое ого ому ое ым ом', 'FEMININE': 'ая ой ой ую ой ой', None: 'ые ых ым ые ыми ых'}


def declined(type, stem, head, *fixed):
    """long forms by regular endings; all slots that do not agree with head stay empty"""
    forms = []
    for i, slot in enumerate(spec.SLOTS[type]):
        p = dict(zip(spec.SCHEMA[type], slot))
        text = ''
        if all(p.get(rel) == name for rel, name in head.items()) and p['CASE'] is not None and p['NUMBER'] is not None:
            case = spec.NAMES['CASE'].index(p['CASE'])
            if p['CASE'] == 'ACCUSATIVE' and p.get('ANIMALITY') == 'ANIMATE' and p['GENDER'] in ('MASCULINE', None):
                case = 1
            text = stem + ENDINGS[p['GENDER']].split()[case]
        forms.append(text)
    return spec.W(type, forms, spec.props(*fixed))


def given(type, texts, *fixed):
    """texts: {property values of the slot: form}"""
    forms = [''] * spec.FORMS_NUMBER[type]
    for values, text in texts.items():
        forms[spec.resolve(type, spec.props(*values.split()))] = text
    return spec.W(type, forms, spec.props(*fixed))


PAST = 'VERB_FORM.INDICATIVE TIME.PAST '


def verb(infinitive, past, present, *fixed):
    m, n, f, p = past.split()
    texts = {'VERB_FORM.INFINITIVE': infinitive, PAST + 'NUMBER.SINGULAR GENDER.MASCULINE': m, PAST + 'NUMBER.SINGULAR GENDER.NEUTER': n,
             PAST + 'NUMBER.SINGULAR GENDER.FEMININE': f, PAST + 'NUMBER.PLURAL': p}
    for person, (one, many) in zip(spec.NAMES['PERSON'], (x.split('/') for x in present.split())):
        texts['VERB_FORM.INDICATIVE TIME.PRESENT NUMBER.SINGULAR PERSON.%s' % person] = one
        texts['VERB_FORM.INDICATIVE TIME.PRESENT NUMBER.PLURAL PERSON.%s' % person] = many
    return given('VERB', texts, *fixed)


ADJECTIVE = {'ADJECTIVE_FORM': 'FULL', 'GRADE': 'POSITIVE'}
PARTICIPLE = {'PARTICIPLE_FORM': 'FULL', 'TIME': 'PAST'}
MASCULINE, FEMININE, NEUTER = 'GENDER.MASCULINE', 'GENDER.FEMININE', 'GENDER.NEUTER'
ANIMATE, INANIMATE = 'ANIMALITY.ANIMATE', 'ANIMALITY.INANIMATE'

WORDS = [
    noun('монета монеты монете монету монетой монете монеты монет монетам монеты монетами монетах', INANIMATE, FEMININE),
    noun('друг друга другу друга другом друге друзья друзей друзьям друзей друзьями друзьях', ANIMATE, MASCULINE),
    noun(['год', 'года', 'году', 'год', 'годом', 'годе', 'года', 'годов', 'годам', 'года', 'годами', 'годах', '', 'лет'], INANIMATE, MASCULINE),
    noun('мыло мыла мылу мыло мылом мыле мыла мыл мылам мыла мылами мылах', INANIMATE, NEUTER),
    noun('печь печи печи печь печью печи печи печей печам печи печами печах', INANIMATE, FEMININE),
    noun('сталь стали стали сталь сталью стали стали сталей сталям стали сталями сталях', INANIMATE, FEMININE),
    noun('сани - - - - - сани саней саням сани санями санях', INANIMATE, FEMININE, 'NUMBER.PLURAL'),
    verb('подарить', 'подарил подарило подарила подарили', 'подарю/подарим подаришь/подарите подарит/подарят', 'ASPECT.PERFECTIVE', 'VOICE.DIRECT'),
    verb('мыть', 'мыл мыло мыла мыли', 'мою/моем моешь/моете моет/моют', 'ASPECT.IMPERFECTIVE', 'VOICE.DIRECT'),
    verb('печь', 'пёк пекло пекла пекли', 'пеку/печём печёшь/печёте печёт/пекут', 'ASPECT.IMPERFECTIVE', 'VOICE.DIRECT'),
    verb('стать', 'стал стало стала стали', 'стану/станем станешь/станете станет/станут', 'ASPECT.PERFECTIVE', 'VOICE.DIRECT'),
    declined('ADJECTIVE', 'красив', ADJECTIVE, 'ADJECTIVE_CATEGORY.QUALITY'),
    declined('ADJECTIVE', 'больн', ADJECTIVE, 'ADJECTIVE_CATEGORY.QUALITY'),
    noun('больной больного больному больного больным больном больные больных больным больных больными больных', ANIMATE, MASCULINE),
    declined('PARTICIPLE', 'сделанн', PARTICIPLE, 'ASPECT.PERFECTIVE', 'VOICE.DIRECT'),
    spec.W('PREPOSITION', ['в', 'во', 'во'], {}),
    spec.W('PREPOSITION', ['о', 'об', 'обо'], {}),
    spec.W('PREPOSITION', ['с', 'со', 'со'], {}),
    given('PRONOUN', {'CASE.NOMINATIVE GENDER.MASCULINE': 'мой', 'CASE.NOMINATIVE GENDER.FEMININE': 'моя', 'CASE.NOMINATIVE GENDER.NEUTER': 'моё',
                      'CASE.ACCUSATIVE GENDER.FEMININE': 'мою', 'CASE.NOMINATIVE NUMBER.PLURAL': 'мои', 'CASE.GENITIVE NUMBER.PLURAL': 'моих'},
          'PRONOUN_CATEGORY.POSSESSIVE'),
    spec.W('TEXT', ['однако'], {}),
]

# what the variables may stand for; one shares its word with the dictionary
HEROES = [
    spec.F(noun('герой героя герою героя героем герое герои героев героям героев героями героях', ANIMATE, MASCULINE)),
    spec.F(noun('русалка русалки русалке русалку русалкой русалке русалки русалок русалкам русалок русалками русалках', ANIMATE, FEMININE)),
    spec.F(noun('русалка русалки русалке русалку русалкой русалке русалки русалок русалкам русалок русалками русалках', ANIMATE, FEMININE),
           spec.props('NUMBER.PLURAL')),
    spec.F(noun('- - - - - - светлячки светлячков светлячкам светлячков светлячками светлячках', ANIMATE, MASCULINE, 'NUMBER.PLURAL')),
    spec.F(noun('привидение привидения привидению привидение привидением привидении', INANIMATE, NEUTER)),
    spec.F(given('PRONOUN', {'CASE.NOMINATIVE NUMBER.SINGULAR': 'я', 'CASE.GENITIVE': 'меня', 'CASE.DATIVE': 'мне', 'CASE.INSTRUMENTAL': 'мной'},
                 'PRONOUN_CATEGORY.PERSONAL', 'PERSON.FIRST', 'NUMBER.SINGULAR', MASCULINE)),
    spec.F(given('PRONOUN', {'CASE.NOMINATIVE': 'мы', 'CASE.GENITIVE': 'нас', 'CASE.DATIVE': 'нам', 'CASE.INSTRUMENTAL': 'нами'},
                 'PRONOUN_CATEGORY.PERSONAL', 'PERSON.FIRST', 'NUMBER.PLURAL')),
    spec.F(given('PRONOUN', {'CASE.NOMINATIVE GENDER.MASCULINE': 'всяк'}, 'PRONOUN_CATEGORY.ATTRIBUTIVE', 'PERSON.THIRD', 'NUMBER.SINGULAR')),
    spec.F(given('PRONOUN', {'CASE.DATIVE NUMBER.PLURAL': 'им'}, 'PRONOUN_CATEGORY.PERSONAL', 'PERSON.THIRD', 'NUMBER.PLURAL')),
    spec.F(noun('- - - такси', INANIMATE, NEUTER)),
    spec.text_form('Чудо-юдо'),
    spec.F(WORDS[1], spec.props('NUMBER.PLURAL', 'CASE.DATIVE')),       # also in the dictionary
    spec.F(declined('ADJECTIVE', 'весёл', ADJECTIVE, 'ADJECTIVE_CATEGORY.QUALITY'), spec.props(FEMININE)),
]
NUMBERS = [1, 2, 5, 11, 21, 22, 125, 0, 1000000, -1, 10001, 20000000003]
PLACES = [
    spec.F(noun('рот рта рту рот ртом рте рты ртов ртам рты ртами ртах', INANIMATE, MASCULINE)),
    spec.F(noun('лёд льда льду лёд льдом льде льды льдов льдам льды льдами льдах', INANIMATE, MASCULINE), spec.props('CASE.PREPOSITIONAL')),
    spec.F(noun('власть власти власти власть властью власти власти властей властям власти властями властях', INANIMATE, FEMININE)),
    spec.F(noun('стена стены стене стену стеной стене стены стен стенам стены стенами стенах', INANIMATE, FEMININE), spec.props('WORD_CASE.UPPER')),
    spec.F(noun('озеро озера озеру озеро озером озере озёра озёр озёрам озёра озёрами озёрах', INANIMATE, NEUTER)),
    spec.F(noun('ёлка ёлки ёлке ёлку ёлкой ёлке ёлки ёлок ёлкам ёлки ёлками ёлках', INANIMATE, FEMININE)),
    spec.text_form('всех'),
]
NAMES = ('герой', 'число', 'место')
PIECES = ['[Герой] [подарил|герой] [друг|дт].', '[число] [монета|число|вн]', '[Красивые|число|сзв] [число] [друг|число]',
          '[красивый|герой|вн] [герой|вн]', '[в|место] [место|пр]', '[с|место] [место|тв] ', '[О|место|загл] [место|пр]; ', '[о|герой] [герой|пр]',
          '[мыла|герой] [мыла|число|рд]', '[печь|число], [Печь|герой|прш]', '[стали|рд,мн] 100% ', '[сани|число] [число|вн]', '[мой|герой] [мою|место]',
          '[сделанный|герой|вн] [больной|герой]', '[больные|число|герой] [больная|число]', '[герой|число] [год|число|тв]',
          '[подарим|число|герой] %s [монета|число|сзв|дт]', '[однако]: [Однако|герой]', '[монету|герой|мн]\n',
          '[подарит|герой] [ подарим | ГЕРОЙ | нст , ед ]']
# correct Russian sentences, written down by hand: (template, hero, place) -> {number: sentence}
SENTENCES = [
    ('[Герой] [подарил|герой] [друг|дт] [число] [монета|число|вн].', 1, 0,
     {1: 'Русалка подарила другу 1 монету.', 2: 'Русалка подарила другу 2 монеты.', 5: 'Русалка подарила другу 5 монет.', 21: 'Русалка подарила другу 21 монету.',
      125: 'Русалка подарила другу 125 монет.', 1000000: 'Русалка подарила другу 1000000 монет.', 11: 'Русалка подарила другу 11 монет.'}),
    ('[число] [красивый|число|мр] [друг|число] [подарил|число] [мыло|вн]', 0, 0,
     {1: '1 красивый друг подарил мыло', 2: '2 красивых друга подарили мыло', 5: '5 красивых друзей подарили мыло', 11: '11 красивых друзей подарили мыло',
      21: '21 красивый друг подарил мыло', 0: '0 красивых друзей подарили мыло', 1000000: '1000000 красивых друзей подарили мыло'}),
    ('[Красивый|число|сзв] [друг|число|сзв] [подарил|число] [мыло|вн]', 0, 0,
     {1: 'Красивый друг подарил мыло', 2: 'Красивые друзья подарили мыло', 5: 'Красивые друзья подарили мыло',
      1000000: 'Красивые друзья подарили мыло'}),
    ('[Красивый|число|сзв] [число] [друг|число] [подарил|число] [мыло|вн]', 0, 0,
     {2: 'Красивые 2 друга подарили мыло', 5: 'Красивые 5 друзей подарили мыло', 11: 'Красивые 11 друзей подарили мыло'}),
    ('[число] [красивая|число|жр] [монета|число]', 0, 0,
     {1: '1 красивая монета', 2: '2 красивые монеты', 5: '5 красивых монет', 21: '21 красивая монета', 20000000003: '20000000003 красивой монеты'}),
    ('[герой|вн] [красивого|герой|вн] [число] [год|число]', 0, 0,
     {1: 'героя красивого 1 год', 2: 'героя красивого 2 года', 5: 'героя красивого 5 лет', 11: 'героя красивого 11 лет', 21: 'героя красивого 21 год',
      22: 'героя красивого 22 года', 125: 'героя красивого 125 лет', -1: 'героя красивого -1 год', 0: 'героя красивого 0 лет'}),
    ('[число] [год|число|дт]; [число] [год|число|тв]', 0, 0,
     {1: '1 году; 1 годом', 2: '2 годам; 2 годами', 22: '22 годам; 22 годами', 21: '21 году; 21 годом'}),
    ('вижу [число] [друг|число|вн]', 0, 0, {1: 'вижу 1 друга', 2: 'вижу 2 друзей', 5: 'вижу 5 друзей', 21: 'вижу 21 друга', 22: 'вижу 22 друга'}),
    ('вижу [число] [красивый|число|вн,од] [друг|число|вн]', 0, 0, {1: 'вижу 1 красивого друга', 2: 'вижу 2 красивых друзей', 5: 'вижу 5 красивых друзей'}),
    ('[герой] [подарил|герой] [герой|дт]', 3, 0, {1: 'светлячки подарили светлячкам'}),
    ('Вчера [герой] [подарил|герой] [герой|вн]', 3, 0, {1: 'Вчера светлячки подарили светлячков'}),
    ('[моет|герой] [подарю|герой] [пеку|герой] [мыть|герой|изъяв,нст]', 6, 0, {1: 'моем подарим печём моем'}),
    ('[моет|герой] [подарила|герой]', 5, 0, {1: 'мою подарил'}),
    ('[моет|герой] [моет|герой|2л] [пекла|герой]', 4, 0, {1: 'моет моешь пекло'}),
    ('[красивый|герой|вн] [герой|вн], [красивый|герой|тв] [герой|тв]', 1, 0, {1: 'красивую русалку, красивой русалкой'}),
    ('[красивый|герой|вн] [герой|вн], [красивый|герой|тв] [герой|тв]', 0, 0, {1: 'красивого героя, красивым героем'}),
    ('[красивый|герой|вн] [герой|вн], [красивый|герой|тв] [герой|тв]', 3, 0, {1: 'красивых светлячков, красивыми светлячками'}),
    ('[красивый|герой|вн] [герой|вн], [сделанный|герой|пр] [герой|пр]', 4, 0, {1: 'красивое привидение, сделанном привидении'}),
    ('[в|место] [место|пр], [с|место] [место|тв], [о|место] [место|пр]', 0, 0, {1: 'в рте, с ртом, о рте'}),
    ('[в|место] [место|пр], [с|место] [место|тв], [о|место] [место|пр]', 0, 2, {1: 'во власти, с властью, о власти'}),
    ('[в|место] [место], [с|место] [место], [с|место] [место|тв]', 0, 1, {1: 'во льде, со льде, со льдом'}),
    ('[в|место|строч] [место|пр|строч], [с|место|строч] [место|тв|строч], [о|место|строч] [место|пр|строч]', 0, 3, {1: 'в стене, со стеной, о стене'}),
    ('[в|место] [место|пр], [с|место] [место|тв], [о|место] [место|пр]', 0, 4, {1: 'в озере, с озером, об озере'}),
    ('[в|место] [место|пр], [с|место] [место|тв], [о|место] [место|пр]', 0, 5, {1: 'в ёлке, с ёлкой, о ёлке'}),
    ('[О|место] [место]', 0, 6, {1: 'Обо всех'}),
    ('[Стал|герой]', 3, 0, {1: 'Стали'}),
    ('[герой|рд] [герой|мн,дт] [Герой|тв]', 2, 0, {1: 'русалок русалкам Русалками'}),
]
WAYS = ['plain', 'reversed', 'stored']


def filled(word):
    word = word.copy()
    word.autofill()
    return word


class Check_(core.Check):
    id = 'C22'
    rule = ('case = a text made of up to the bound of pieces, along one way of setting the objects up; state = (text, way, variables); every '
            'combination of variables is substituted in the same template object')

    def prepare(self, tier):
        words = [filled(w) for w in WORDS]
        self.model_dictionary = spec.D(words)
        # combinations of variables
        self.assignments = list(itertools.product(range(len(HEROES)), range(len(NUMBERS)), range(len(PLACES))))
        self.few = [x for i, x in enumerate(self.assignments) if i % 11 == 0]
        places = [spec.F(filled(f.word), f.props) for f in PLACES]
        heroes = [spec.F(filled(f.word), f.props) for f in HEROES]
        self.model_variables = [dict(zip(NAMES, (heroes[x], spec.integer(NUMBERS[y]), places[z]))) for x, y, z in self.assignments]
        self.position = {x: i for i, x in enumerate(self.assignments)}
        self.texts = {}
        self.setups = {way: self.setup(way) for way in WAYS}

    def setup(self, way):
        def build(w):
            word = a.word(w)
            if way == 'stored':     # stored incomplete, completed after it was read back
                word = a.words.Word.deserialize(json.loads(json.dumps(word.serialize(), ensure_ascii=False)))
            word.autofill_missed_forms()
            if way == 'reversed':   # stored after it was completed
                word = a.words.Word.deserialize(json.loads(json.dumps(word.serialize())))
            return word
        words = [build(w) for w in WORDS]
        known = {id(w): word for w, word in zip(WORDS, words)}
        if way == 'reversed':
            dictionary = a.dictionary.Dictionary()
            for word in reversed(words):
                dictionary.add_word(word)
        else:
            dictionary = a.dictionary.Dictionary(words=words)
        heroes = [a.words.WordForm(known.get(id(f.word)) or build(f.word), properties=a.properties(f.props)) for f in HEROES]
        places = [a.words.WordForm(build(f.word), properties=a.properties(f.props)) for f in PLACES]
        numbers = [a.constructors.construct_integer(n) for n in NUMBERS]
        return dictionary, heroes, numbers, places

    def shards(self, tier):
        yield {'sentences': True}
        for way in WAYS:
            for i in range(len(PIECES)):
                yield {'way': way, 'pieces': [i], 'all': True, 'length': 0}
                yield {'way': way, 'pieces': [i], 'all': True, 'length': 1}
                if tier == 'thorough':
                    for j in range(len(PIECES)):
                        yield {'way': way, 'pieces': [i, j], 'all': False, 'length': 1}

    def explore(self, shard, ctx):
        if 'sentences' in shard:
            for i, (text, hero, place, sentences) in enumerate(SENTENCES):
                for number in sentences:
                    for way in WAYS:
                        ctx.run({'sentence': i, 'number': number, 'way': way})
            return
        for rest in itertools.product(range(len(PIECES)), repeat=shard['length']):
            ctx.run({'way': shard['way'], 'pieces': shard['pieces'] + list(rest), 'all': shard['all']})

    def expected(self, piece, index):
        key = (piece, index)
        if key not in self.texts:
            variables = self.model_variables[index]
            self.texts[key] = spec.T(PIECES[piece], NAMES).substitute(variables, self.model_dictionary)
        return self.texts[key]

    def sentence(self, case, ctx):
        text, hero, place, sentences = SENTENCES[case['sentence']]
        number, expected = case['number'], sentences[case['number']]
        ctx.state(('sentence', text, number, case['way']))
        ctx.step(2)
        model = self.model_variables[self.position[hero, NUMBERS.index(number), place]]
        assert spec.T(text, NAMES).substitute(model, self.model_dictionary) == expected, text
        dictionary, heroes, numbers, places = self.setups[case['way']]
        variables = dict(zip(NAMES, (heroes[hero], numbers[NUMBERS.index(number)], places[place])))
        template = a.template(text, NAMES)
        a.compare('sentence %r' % text, ('ok', expected), a.outcome(template.substitute, externals=variables, dictionary=dictionary))

    def run_case(self, case, ctx):
        if 'sentence' in case:
            return self.sentence(case, ctx)
        way = case['way']
        dictionary, heroes, numbers, places = self.setups[way]
        text = ''.join(PIECES[i] for i in case['pieces'])
        template = a.template(text, NAMES)
        if way == 'stored':
            template = a.templates.Template.deserialize(json.loads(json.dumps(template.serialize(), ensure_ascii=False)))
        lexicon = a.lexicon.Lexicon()
        lexicon.add_template('фраза', template, frozenset(['а', 'б']))
        lexicon.add_template('фраза', a.template('не то', ()), frozenset(['а']))
        lexicon.add_template('фраза', a.template('нельзя', ()), frozenset(['а', 'б', 'в', 'г']))
        chosen = lexicon.get_random_nearest_template('фраза', restrictions=frozenset(['а', 'б', 'в']))
        a.equal('chosen template', True, chosen is template)
        a.equal('missing words', [], list(chosen.get_undictionaried_words(externals=NAMES, dictionary=dictionary)))
        for x, y, z in (self.assignments if case['all'] else self.few):
            if 'only' in case and [x, y, z] != case['only']:
                continue
            ctx.state((tuple(case['pieces']), way, x, y, z))
            ctx.step()
            index = self.position[x, y, z]
            expected = ''.join(self.expected(piece, index) for piece in case['pieces'])
            variables = dict(zip(NAMES, (heroes[x], numbers[y], places[z])))
            got = a.outcome(chosen.substitute, externals=variables, dictionary=dictionary)
            a.compare('%r with герой=%s, число=%d, место=%s (%s)' % (text, heroes[x].form, NUMBERS[y], places[z].form, way), ('ok', expected), got)
        ctx.outcome(way)

    def shrink(self, case):
        if 'sentence' in case:
            return
        if len(case['pieces']) > 1:
            for i in range(len(case['pieces'])):
                yield dict(case, pieces=case['pieces'][:i] + case['pieces'][i + 1:], all=True)
