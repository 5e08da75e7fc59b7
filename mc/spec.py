"""Reference model of utg.

Written from the documentation (README, comments in the sources) as plain data and small functions.  It imports
nothing from utg: property values are strings 'RELATION.NAME', property sets are dicts RELATION -> NAME, words and
word forms are the classes W and F below.  Every check compares the real code with this model.
"""

# ----------------------------------------------------------------------------------------------- vocabulary

# relation -> [(name, stored number, identifier used in templates)]; the first value is the default
RELATIONS = {
    'CASE': [('NOMINATIVE', 0, 'им'), ('GENITIVE', 1, 'рд'), ('DATIVE', 2, 'дт'), ('ACCUSATIVE', 3, 'вн'),
             ('INSTRUMENTAL', 4, 'тв'), ('PREPOSITIONAL', 5, 'пр')],
    'ANIMALITY': [('ANIMATE', 0, 'од'), ('INANIMATE', 1, 'но')],
    'NUMBER': [('SINGULAR', 0, 'ед'), ('PLURAL', 1, 'мн')],
    'GENDER': [('MASCULINE', 0, 'мр'), ('NEUTER', 1, 'ср'), ('FEMININE', 2, 'жр')],
    'VERB_FORM': [('INFINITIVE', 0, 'инф'), ('INDICATIVE', 1, 'изъяв'), ('IMPERATIVE', 3, 'пов')],
    'VOICE': [('DIRECT', 0, 'прям'), ('REVERSE', 1, 'взв')],
    'TIME': [('PAST', 1, 'прш'), ('PRESENT', 2, 'нст'), ('FUTURE', 3, 'буд')],
    'PERSON': [('FIRST', 0, '1л'), ('SECOND', 1, '2л'), ('THIRD', 2, '3л')],
    'ASPECT': [('IMPERFECTIVE', 0, 'несов'), ('PERFECTIVE', 1, 'сов')],
    'ADJECTIVE_CATEGORY': [('QUALITY', 0, 'кач'), ('RELATIVE', 1, 'отн'), ('POSSESSIVE', 2, 'прит')],
    'GRADE': [('POSITIVE', 0, 'пол'), ('COMPARATIVE', 1, 'сравн'), ('SUPERLATIVE', 2, 'прев')],
    'PRONOUN_CATEGORY': [('PERSONAL', 0, 'личн'), ('REFLEXIVE', 1, 'возвр'), ('POSSESSIVE', 2, 'притяж'),
                         ('INTERROGATIVE', 3, 'вопр'), ('RELATIVE', 4, 'относ'), ('DEMONSTRATIVE', 5, 'указат'),
                         ('ATTRIBUTIVE', 6, 'опред'), ('NEGATIVE', 7, 'отриц'), ('VAGUE', 8, 'неопр'),
                         ('MUTUAL', 9, 'взаимн')],
    'INTEGER_FORM': [('SINGULAR', 0, 'цо'), ('DUAL', 1, 'цд'), ('COMPOSITE_DUAL', 2, 'цсд'), ('PLURAL', 3, 'цост'),
                     ('MIL_BIL', 4, 'цмм')],
    'NOUN_FORM': [('NORMAL', 0, 'нс'), ('COUNTABLE', 1, 'счт')],
    'ADJECTIVE_FORM': [('FULL', 0, 'полнприл'), ('SHORT', 1, 'крприл')],
    'PARTICIPLE_FORM': [('FULL', 0, 'полнприч'), ('SHORT', 1, 'крприч')],
    'WORD_CASE': [('LOWER', 0, 'строч'), ('UPPER', 1, 'загл')],
    'DEPENDENCY_MODE': [('FULL', 0, 'пзв'), ('SEMANTIC', 1, 'сзв')],
    'PREPOSITION_FORM': [('NORMAL', 0, 'осн'), ('ALTERNATIVE', 1, 'алт'), ('SPECIAL', 2, 'спц')],
    'WORD_TYPE': [('NOUN', 0, 'сущ'), ('ADJECTIVE', 1, 'прил'), ('PRONOUN', 2, 'мест'), ('VERB', 3, 'гл'),
                  ('PARTICIPLE', 4, 'прич'), ('INTEGER', 5, 'целое'), ('TEXT', 6, 'текст'), ('PREPOSITION', 10, 'предл')],
}

# relation -> number of the category in stored data; the dict order is the order of the textual rendering
CATEGORY = {'CASE': 0, 'ANIMALITY': 1, 'NUMBER': 2, 'GENDER': 3, 'VERB_FORM': 4, 'TIME': 5, 'PERSON': 6, 'ASPECT': 7,
            'ADJECTIVE_CATEGORY': 9, 'GRADE': 10, 'PRONOUN_CATEGORY': 11, 'WORD_CASE': 12, 'WORD_TYPE': 13,
            'INTEGER_FORM': 14, 'VOICE': 15, 'PREPOSITION_FORM': 16, 'ADJECTIVE_FORM': 17, 'PARTICIPLE_FORM': 18,
            'NOUN_FORM': 19, 'DEPENDENCY_MODE': 20}

SCHEMA = {'NOUN': ('NOUN_FORM', 'NUMBER', 'CASE'),
          'ADJECTIVE': ('ADJECTIVE_FORM', 'GRADE', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER'),
          'PRONOUN': ('ANIMALITY', 'NUMBER', 'CASE', 'GENDER'),
          'VERB': ('VERB_FORM', 'TIME', 'NUMBER', 'PERSON', 'GENDER'),
          'PARTICIPLE': ('PARTICIPLE_FORM', 'TIME', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER'),
          'INTEGER': (), 'TEXT': (), 'PREPOSITION': ('PREPOSITION_FORM',)}

TYPES = [n for n, _, _ in RELATIONS['WORD_TYPE']]
TYPE_NUMBER = {n: v for n, v, _ in RELATIONS['WORD_TYPE']}
NAMES = {rel: [n for n, _, _ in recs] for rel, recs in RELATIONS.items()}
DEFAULT = {rel: names[0] for rel, names in NAMES.items()}
DEFAULT['WORD_TYPE'] = None
VALUES = ['%s.%s' % (rel, n) for rel, names in NAMES.items() for n in names]
VERBOSE = {'%s.%s' % (rel, n): s for rel, recs in RELATIONS.items() for n, _, s in recs}
BY_VERBOSE = {s: p for p, s in VERBOSE.items()}
NUMBER_OF = {'%s.%s' % (rel, n): v for rel, recs in RELATIONS.items() for n, v, _ in recs}


def split(value):
    return value.split('.', 1)


# ----------------------------------------------------------------------------------------------- slots

CASES = NAMES['CASE']
GENDERS = NAMES['GENDER']
ANIMALITIES = NAMES['ANIMALITY']


def _declension():
    # number, case, gender; plural has no gender
    for case in CASES:
        for gender in GENDERS:
            yield 'SINGULAR', case, gender
    for case in CASES:
        yield 'PLURAL', case, None


def _noun_slots():
    for case in CASES:
        yield 'NORMAL', 'SINGULAR', case
    for form in ('NORMAL', 'COUNTABLE'):
        for case in CASES:
            yield form, 'PLURAL', case


def _adjective_slots():
    for grade in ('POSITIVE', 'COMPARATIVE', 'SUPERLATIVE'):
        if grade == 'COMPARATIVE':
            yield 'FULL', grade, None, None, None, None
            continue
        for animality in ANIMALITIES:
            for number, case, gender in _declension():
                yield 'FULL', grade, animality, number, case, gender
    for gender in GENDERS:
        yield 'SHORT', None, None, 'SINGULAR', None, gender
    yield 'SHORT', None, None, 'PLURAL', None, None


def _pronoun_slots():
    for animality in ANIMALITIES:
        for number, case, gender in _declension():
            yield animality, number, case, gender


def _verb_slots():
    yield 'INFINITIVE', None, None, None, None
    for gender in GENDERS:
        yield 'INDICATIVE', 'PAST', 'SINGULAR', None, gender
    yield 'INDICATIVE', 'PAST', 'PLURAL', None, None
    for time in ('PRESENT', 'FUTURE'):
        for number in ('SINGULAR', 'PLURAL'):
            for person in ('FIRST', 'SECOND', 'THIRD'):
                yield 'INDICATIVE', time, number, person, None
    yield 'IMPERATIVE', None, 'SINGULAR', 'SECOND', None
    yield 'IMPERATIVE', None, 'PLURAL', 'FIRST', None
    yield 'IMPERATIVE', None, 'PLURAL', 'SECOND', None


def _participle_slots():
    for time in ('PAST', 'PRESENT', 'FUTURE'):
        for animality in ANIMALITIES:
            for number, case, gender in _declension():
                yield 'FULL', time, animality, number, case, gender
    for gender in GENDERS:
        yield 'SHORT', None, None, 'SINGULAR', None, gender
    yield 'SHORT', None, None, 'PLURAL', None, None


SLOTS = {'NOUN': list(_noun_slots()),
         'ADJECTIVE': list(_adjective_slots()),
         'PRONOUN': list(_pronoun_slots()),
         'VERB': list(_verb_slots()),
         'PARTICIPLE': list(_participle_slots()),
         'INTEGER': [()],
         'TEXT': [()],
         'PREPOSITION': [('NORMAL',), ('ALTERNATIVE',), ('SPECIAL',)]}

FORMS_NUMBER = {'NOUN': 18, 'ADJECTIVE': 101, 'PRONOUN': 48, 'VERB': 20, 'PARTICIPLE': 148, 'INTEGER': 1, 'TEXT': 1,
                'PREPOSITION': 3}

assert all(len(SLOTS[t]) == FORMS_NUMBER[t] for t in TYPES)


def slot_props(type, index):
    return {rel: name for rel, name in zip(SCHEMA[type], SLOTS[type][index]) if name is not None}


def similarity(key_a, key_b):
    return sum(100 + i for i, (a, b) in enumerate(zip(key_a, key_b)) if a == b)


def nearest_slot(type, key, allowed=None):
    """slot sharing most values with key, later positions weigh more, earliest wins ties"""
    best, best_similarity = None, -1
    for index, slot in enumerate(SLOTS[type]):
        if allowed is not None and index not in allowed:
            continue
        s = similarity(key, slot)
        if s > best_similarity:
            best, best_similarity = index, s
    return best


_RESOLVE = {t: {} for t in TYPES}


def resolve_key(type, key):
    """index of the form for a complete grammatical key"""
    cache = _RESOLVE[type]
    if key not in cache:
        cache[key] = _resolve_key(type, key)
    return cache[key]


def _matches(slot, key):
    return all(s is None or s == k for s, k in zip(slot, key))


def _resolve_key(type, key):
    exact = [i for i, slot in enumerate(SLOTS[type]) if _matches(slot, key)]
    if exact:
        assert len(exact) == 1
        return exact[0]
    # the grammar has no such combination: nearest complete key that it has
    best, best_similarity = None, -1
    for index, slot in enumerate(SLOTS[type]):
        # a None in the slot stands for any value, so the nearest complete key of the slot agrees with key there
        s = similarity(key, tuple(k if v is None else v for v, k in zip(slot, key)))
        if s > best_similarity:
            best, best_similarity = index, s
    return best


def resolve(type, props):
    return resolve_key(type, tuple(props.get(rel, DEFAULT[rel]) for rel in SCHEMA[type]))


# ----------------------------------------------------------------------------------------------- property sets

def props(*values):
    """values: 'REL.NAME' strings or dicts, later override earlier"""
    result = {}
    for v in values:
        if v is None:
            continue
        if isinstance(v, dict):
            result.update(v)
        else:
            rel, name = split(v)
            result[rel] = name
    return result


def non_default(p):
    return sum(1 for rel, name in p.items() if name != DEFAULT[rel])


def render(p):
    return '(%s)' % ','.join(VERBOSE['%s.%s' % (rel, p[rel])] for rel in CATEGORY if rel in p)


def serialize_props(p):
    return {CATEGORY[rel]: NUMBER_OF['%s.%s' % (rel, name)] for rel, name in p.items()}


# ----------------------------------------------------------------------------------------------- words

VOWELS = set('аеёиоуыэюя') | set('аеёиоуыэюя'.upper())
CONSONANTS = set('бвгджзйклмнпрстфхцчшщъь') | set('бвгджзйклмнпрстфхцчшщъь'.upper())
PLAIN_VOWELS = VOWELS - set('еёюяЕЁЮЯ')


class W(object):
    def __init__(self, type, forms, props=None):
        self.type, self.forms, self.props = type, list(forms), dict(props or {})

    def copy(self):
        return W(self.type, self.forms, self.props)

    def key(self):
        return (self.type, tuple(self.forms), tuple(sorted(self.props.items())))

    def text(self, p):
        """form for requested properties; word's own properties win"""
        return self.forms[resolve(self.type, props(p, self.props))]

    def normal(self):
        return self.text({})

    def syllables(self):
        return max(1, sum(1 for c in self.forms[0] if c in VOWELS))

    def fluent(self):
        base = [c for c in self.forms[0] if c in VOWELS]
        for other in self.forms[1:]:
            if not other:
                continue
            vowels = [c for c in other if c in VOWELS]
            if vowels[:len(base)] != base:
                return True
        return False

    def autofill(self):
        given = {i for i, f in enumerate(self.forms) if f}
        source = list(self.forms)
        for i, f in enumerate(source):
            if not f and given:
                self.forms[i] = source[nearest_slot(self.type, SLOTS[self.type][i], given)]

    def all_forms(self):
        return [F(self, slot_props(self.type, i)) for i in range(len(self.forms))]

    def ranked_forms(self):
        """(text, rank, form), computed once: only for words that are not changed any more"""
        if not hasattr(self, '_ranked'):
            self._ranked = [(f.text, D.rank(f), f) for f in self.all_forms()]
        return self._ranked


def capitalize(text, p):
    if p.get('WORD_CASE') == 'UPPER':
        return text[:1].upper() + text[1:]
    return text


class F(object):
    """word form"""

    def __init__(self, word, p=None, form_props=None):
        self.word = word
        self.props = props(p, word.props)
        self.form_props = self.props if form_props is None else props(form_props, word.props)

    @property
    def text(self):
        return raw_text(self.word, self.form_props)

    def cluster(self):
        t = self.text
        return t[:1] in CONSONANTS and (len(t) == 1 or t[1] in CONSONANTS)

    def key(self):
        return (self.word.key(), tuple(sorted(self.props.items())))


def raw_text(word, p):
    """text for final properties: nothing is added to them"""
    return capitalize(word.forms[resolve(word.type, p)], p)


def text_form(text):
    return F(W('TEXT', [text]))


# ----------------------------------------------------------------------------------------------- integers

def integer_props(n):
    n = abs(n)
    if n in (10 ** 6, 10 ** 9):
        return {'NUMBER': 'PLURAL', 'INTEGER_FORM': 'MIL_BIL'}
    if n == 1:
        return {'NUMBER': 'SINGULAR', 'INTEGER_FORM': 'SINGULAR'}
    if n in (2, 3, 4):
        return {'NUMBER': 'PLURAL', 'INTEGER_FORM': 'DUAL'}
    last, last2 = n % 10, n % 100
    if last2 // 10 == 1:
        return {'NUMBER': 'PLURAL', 'INTEGER_FORM': 'PLURAL'}
    if last == 1:
        return {'NUMBER': 'PLURAL', 'INTEGER_FORM': 'SINGULAR'}
    if last in (2, 3, 4):
        return {'NUMBER': 'PLURAL', 'INTEGER_FORM': 'COMPOSITE_DUAL'}
    return {'NUMBER': 'PLURAL', 'INTEGER_FORM': 'PLURAL'}


def integer(n):
    return F(W('INTEGER', ['%d' % n], integer_props(n)))


# ----------------------------------------------------------------------------------------------- agreement

def _get(p, rel):
    return p.get(rel, DEFAULT[rel])


# (numeral class, case group) -> properties forced on the governed word.
# case groups: N nominative, AI inanimate accusative, AA animate accusative, O any other case
_NOUN_TABLE = {
    'SINGULAR': dict.fromkeys(('N', 'AI', 'AA', 'O'), ('NORMAL', 'SINGULAR', None)),
    'DUAL': {'N': ('NORMAL', 'SINGULAR', 'GENITIVE'), 'AI': ('NORMAL', 'SINGULAR', 'GENITIVE'),
             'AA': ('COUNTABLE', 'PLURAL', None), 'O': ('COUNTABLE', 'PLURAL', None)},
    'COMPOSITE_DUAL': {'N': ('NORMAL', 'SINGULAR', 'GENITIVE'), 'AI': ('NORMAL', 'SINGULAR', 'GENITIVE'),
                       'AA': ('NORMAL', 'SINGULAR', 'GENITIVE'), 'O': ('COUNTABLE', 'PLURAL', None)},
    'PLURAL': {'N': ('COUNTABLE', 'PLURAL', 'GENITIVE'), 'AI': ('COUNTABLE', 'PLURAL', 'GENITIVE'),
               'AA': ('COUNTABLE', 'PLURAL', 'GENITIVE'), 'O': ('COUNTABLE', 'PLURAL', None)},
    'MIL_BIL': dict.fromkeys(('N', 'AI', 'AA', 'O'), ('COUNTABLE', 'PLURAL', 'GENITIVE')),
}


def _case_group(p):
    case = _get(p, 'CASE')
    if case == 'NOMINATIVE':
        return 'N'
    if case == 'ACCUSATIVE':
        return 'AI' if _get(p, 'ANIMALITY') == 'INANIMATE' else 'AA'
    return 'O'


def noun_with_integer(p):
    kind = _get(p, 'INTEGER_FORM')
    if _get(p, 'DEPENDENCY_MODE') == 'SEMANTIC':
        return props(p, 'NOUN_FORM.NORMAL', 'NUMBER.SINGULAR' if kind == 'SINGULAR' else 'NUMBER.PLURAL')
    form, number, case = _NOUN_TABLE[kind][_case_group(p)]
    return props(p, {'NOUN_FORM': form, 'NUMBER': number}, {'CASE': case} if case else None)


def adjective_with_integer(p):
    kind = _get(p, 'INTEGER_FORM')
    direct = _case_group(p) != 'O'
    if _get(p, 'DEPENDENCY_MODE') == 'SEMANTIC':
        return props(p, 'NUMBER.SINGULAR' if kind == 'SINGULAR' else 'NUMBER.PLURAL')
    if kind == 'SINGULAR':
        return props(p, 'NUMBER.SINGULAR')
    if kind == 'MIL_BIL':
        return props(p, 'NUMBER.PLURAL', 'CASE.GENITIVE')
    if not direct:
        return props(p, 'NUMBER.PLURAL')
    if kind == 'DUAL':
        return props(p, 'NUMBER.PLURAL', 'CASE.NOMINATIVE' if _get(p, 'GENDER') == 'FEMININE' else 'CASE.GENITIVE')
    if kind == 'COMPOSITE_DUAL':
        return props(p, 'NUMBER.SINGULAR', 'CASE.GENITIVE')
    assert kind == 'PLURAL'
    return props(p, 'NUMBER.PLURAL', 'CASE.GENITIVE')


OBO = ('всех', 'мне', 'всём', 'что', 'всей')


def preposition_variant(slave_text, master):
    """None: leave the form as requested"""
    text = master.text
    if slave_text and slave_text[-1] in CONSONANTS:
        if master.cluster() and master.word.syllables() == 1 and master.word.fluent():
            return 'ALTERNATIVE'
        if slave_text in ('в', 'с') and text[:1].lower() == slave_text and master.cluster():
            return 'ALTERNATIVE'
        return None
    if slave_text == 'о' and text.lower() in OBO:
        return 'SPECIAL'
    if text[:1] in PLAIN_VOWELS:
        return 'ALTERNATIVE'
    return None


def transform(slave, p, master):
    if slave.type == 'PREPOSITION':
        variant = preposition_variant(slave.normal(), master)
        return props(p, {'PREPOSITION_FORM': variant}) if variant else p
    if master.word.type == 'INTEGER':
        if slave.type in ('NOUN', 'PRONOUN'):
            return noun_with_integer(p)
        if slave.type in ('ADJECTIVE', 'VERB', 'PARTICIPLE'):
            return adjective_with_integer(p)
    return p


# ----------------------------------------------------------------------------------------------- errors

class ModelError(Exception):
    """expected library error: class name and the thing it must mention"""

    def __init__(self, name, subject=None):
        Exception.__init__(self, name, subject)
        self.name, self.subject = name, subject


# ----------------------------------------------------------------------------------------------- dictionary

class D(object):
    def __init__(self, words=()):
        self.data = {}
        for word in words:
            self.add(word)

    def add(self, word):
        for text, rank, form in word.ranked_forms():
            old = self.data.get(text)
            if old is None or rank < self.rank(old):
                self.data[text] = form

    @staticmethod
    def rank(form):
        return (TYPE_NUMBER[form.word.type], form.word.forms, non_default(form.props))

    def get(self, text):
        if text not in self.data:
            raise ModelError('NoWordsFoundError', text)
        return self.data[text]


# ----------------------------------------------------------------------------------------------- templates

def scan(text):
    """-> list of ('text', s) and ('var', s), a character automaton"""
    parts, literal, i = [], [], 0
    while i < len(text):
        if text[i] == '[':
            end = text.find(']', i + 1)
            if end > i + 1:
                parts.append(('text', ''.join(literal)))
                literal = []
                parts.append(('var', text[i + 1:end]))
                i = end + 1
                continue
        literal.append(text[i])
        i += 1
    parts.append(('text', ''.join(literal)))
    return parts


def parse_props(text):
    result = {}
    for slug in text.split(','):
        slug = slug.strip()
        if not slug:
            continue
        if slug not in BY_VERBOSE:
            raise ModelError('UnknownVerboseIdError', slug)
        result = props(result, BY_VERBOSE[slug])
    return result


class S(object):
    """parsed substitution"""

    def __init__(self, id, deps):
        self.id, self.deps = id, deps

    @classmethod
    def parse(cls, content, externals):
        slugs = content.split('|')
        name = slugs[0].strip()
        if not name:
            raise ModelError('WrongDependencyFormatError', content)
        deps = []
        for slug in slugs[1:]:
            slug = slug.lower().strip()
            deps.append(slug if slug in externals else parse_props(slug))
        if name[0].isupper():
            deps.append({'WORD_CASE': 'UPPER'})
        return cls(name.lower(), deps)

    def text(self, externals, dictionary):
        base = externals[self.id] if self.id in externals else dictionary.get(self.id)
        p = dict(base.props)
        masters = []
        for dep in self.deps:
            if isinstance(dep, dict):
                p.update(dep)
            elif dep in externals:
                p.update(externals[dep].props)
                masters.append(externals[dep])
            else:
                raise ModelError('ExternalDependecyNotFoundError', dep)
        p.update(base.word.props)
        for master in masters:
            p = transform(base.word, p, master)
        return raw_text(base.word, p)


class T(object):
    def __init__(self, text, externals):
        self.parts = [(kind, s) if kind == 'text' else (kind, S.parse(s, externals)) for kind, s in scan(text)]

    def substitute(self, externals, dictionary):
        return ''.join(s if kind == 'text' else s.text(externals, dictionary) for kind, s in self.parts)

    def missing(self, externals, dictionary):
        return [s.id for kind, s in self.parts
                if kind == 'var' and s.id not in externals and s.id not in dictionary.data]


# ----------------------------------------------------------------------------------------------- lexicon

class L(object):
    def __init__(self):
        self.data = {}

    def add(self, key, template, restrictions):
        self.data.setdefault(key, []).append((template, frozenset(restrictions)))

    def eligible(self, key, restrictions):
        return [(t, rs) for t, rs in self.data.get(key, ()) if rs <= restrictions]

    def choices(self, key, restrictions, nearest):
        if key not in self.data:
            raise ModelError('UnknownLexiconKeyError', key)
        found = self.eligible(key, restrictions)
        if not found:
            raise ModelError('NoTemplatesWithSpecifiedRestrictions', key)
        if nearest:
            best = max(len(rs) for _, rs in found)
            found = [(t, rs) for t, rs in found if len(rs) == best]
        return [t for t, _ in found]
