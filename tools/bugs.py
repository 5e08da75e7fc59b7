# planted bugs: (see plant.py)
PREAMBLE = '''import json, sys
from utg import words, data, templates, dictionary, lexicon, constructors, transformators, exceptions, logic
from utg import relations as r

P = words.Properties


def word(type, forms=None, *properties):
    number = len(data.WORDS_CACHES[type])
    if forms is None:
        forms = ['%s%d' % ('абв'[type.value % 3], i) for i in range(number)]
    forms = list(forms) + [''] * (number - len(forms))
    return words.Word(type=type, forms=forms, properties=P(*properties))


def parse(text, externals=()):
    template = templates.Template()
    template.parse(text, externals=externals)
    return template


def generate(text, externals=None, known=()):
    externals = externals or {}
    return parse(text, externals).substitute(externals, dictionary.Dictionary(words=known))


def eq(got, expected):
    if got != expected:
        print('got', repr(got), 'expected', repr(expected))
        sys.exit(1)


'''
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01
bug('c01-raw-keys-source', 'C01',
    [('utg/logic.py', 'nearest_key = get_nearest_key(key, cache.keys())', 'nearest_key = get_nearest_key(key, [tuple(k) for k in keys])')],
    'a combination the grammar does not have (imperative, third person) requested from a verb',
    'the nearest slot is looked for among slot keys (with None) instead of among complete keys, so absent combinations weigh categories wrongly',
    '''
verb = word(r.WORD_TYPE.VERB)
got = verb.form(P(r.VERB_FORM.IMPERATIVE, r.TIME.PRESENT, r.PERSON.THIRD, r.NUMBER.PLURAL))
table = data.WORDS_CACHES[r.WORD_TYPE.VERB]
want = None
best = -1
full = {r.VERB_FORM: r.VERB_FORM.IMPERATIVE, r.TIME: r.TIME.PRESENT, r.PERSON: r.PERSON.THIRD, r.NUMBER: r.NUMBER.PLURAL, r.GENDER: r.GENDER.MASCULINE}
for key, index in sorted(table.items(), key=lambda p: p[1]):
    score = sum(1 + 0.01 * i for i, (p, relation) in enumerate(zip(key, r.WORD_TYPE.VERB.schema)) if p is None or p == full[relation])
    if score > best + 1e-9:
        best, want = score, index
eq(got, verb.forms[want])
''')

bug('c01-all-forms-skips', 'C01',
    [('utg/words.py', 'for i in range(len(self.forms)))', 'for i in range(len(self.forms)) if self.forms[i])')],
    'a word with an unspecified (empty) form whose forms are listed',
    'the listing of all forms leaves out slots whose text is empty',
    '''
noun = word(r.WORD_TYPE.NOUN, ['а', '', 'в'])
eq([f.form for f in noun.all_forms()], noun.forms)
''')

bug('c01-own-number', 'C01',
    [('utg/words.py', 'return self._form(Properties(properties, self.properties))',
      'if self.type.schema and self.properties.is_specified(self.type.schema[-1]):\n            return self._form(properties)\n        return self._form(Properties(properties, self.properties))')],
    'a word that fixes the last category of its schema (a pronoun or adjective with its own gender) asked for a conflicting value',
    'properties fixed on the word no longer override the requested ones when the fixed one is the last of the schema',
    '''
pronoun = word(r.WORD_TYPE.PRONOUN, None, r.GENDER.FEMININE)
eq(pronoun.form(P(r.GENDER.NEUTER)), pronoun.form(P(r.GENDER.FEMININE)))
''')

# ---------------------------------------------------------------- C02
bug('c02-voice-values', 'C02',
    [('utg/relations.py', "('DIRECT', 0, 'прямой залог', 'прям')", "('DIRECT', 1, 'прямой залог', 'прям')"),
     ('utg/relations.py', "('REVERSE', 1, 'возвратный залог', 'взв')", "('REVERSE', 0, 'возвратный залог', 'взв')")],
    'a stored verb whose voice was saved by an earlier version of the library',
    'stored identifiers of the two voices are exchanged; slots, short ids and in-process round trips are unaffected',
    '''
eq(P.deserialize({15: 1}).get(r.VOICE), r.VOICE.REVERSE)
''')

bug('c02-too-many-forms', 'C02',
    [('utg/words.py', 'if len(forms) != len(data.WORDS_CACHES[type]):', 'if len(set(range(len(forms))) | set(data.WORDS_CACHES[type].values())) != len(forms):')],
    'a word built with more forms than its part of speech has',
    'surplus forms are accepted silently',
    '''
try:
    words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['о', 'об', 'обо', 'обоо'])
except exceptions.WrongFormsNumberError:
    sys.exit(0)
sys.exit(1)
''')

bug('c02-vague-id', 'C02',
    [('utg/relations.py', "'неопределённое', 'неопр')", "'неопределённое', 'неопред')")],
    'a template that uses the short identifier of indefinite pronouns',
    'a documented short identifier is not recognised any more',
    '''
eq(generate('[а|неопр]', {'а': words.WordForm(word(r.WORD_TYPE.TEXT, ['т']))}), 'т')
''')

# ---------------------------------------------------------------- C03
bug('c03-nested-bracket', 'C03',
    [('utg/templates.py', r"re.compile('\[[^\]]+\]', re.UNICODE)", r"re.compile('\[[^\[\]]+\]', re.UNICODE)")],
    'an opening bracket inside a variable',
    'a variable reaches from the last opening bracket instead of the first',
    '''
x = words.WordForm(word(r.WORD_TYPE.TEXT, ['т']))
eq(generate('-[а[б]-', {'а[б': x, 'б': x}), '-т-')
''')

bug('c03-newline', 'C03',
    [('utg/templates.py', r"re.compile('\[[^\]]+\]', re.UNICODE)", r"re.compile('\[[^\]\n]+\]', re.UNICODE)")],
    'a line break inside a variable',
    'a variable written over two lines is left in the text as it is',
    '''
x = words.WordForm(word(r.WORD_TYPE.NOUN))
eq(generate('-[а|\\nмн]-', {'а': x}), generate('-[а|мн]-', {'а': x}))
''')

bug('c03-interned-text', 'C03',
    [('utg/templates.py', '        return self.template % substitutions', "        if '' in substitutions:\n            return ' '.join((self.template % substitutions).split(' ')).replace('  ', ' ')\n        return self.template % substitutions")],
    'a substitution whose form is empty, in a template with two consecutive spaces anywhere',
    'literal double spaces are collapsed when some inserted form is empty',
    '''
x = words.WordForm(word(r.WORD_TYPE.TEXT, ['']))
eq(generate('а [х] б  в', {'х': x}), 'а  б  в')
''')

# ---------------------------------------------------------------- C04
bug('c04-list-order', 'C04',
    [('utg/templates.py', "for slug in text.split(','):", "for slug in sorted(text.split(',')):")],
    'two values of one category in one comma list, the later one earlier in the alphabet',
    'the properties of a comma list are applied in alphabetical order instead of in the given one',
    '''
noun = word(r.WORD_TYPE.NOUN)
x = words.WordForm(noun)
eq(generate('[х|рд,дт]', {'х': x}), noun.form(P(r.CASE.DATIVE)))
eq(generate('[х|рд,вн]', {'х': x}), noun.form(P(r.CASE.ACCUSATIVE)))
eq(generate('[х|мн,ед]', {'х': x}), noun.form(P(r.NUMBER.SINGULAR)))
''')

bug('c04-identifier-first', 'C04',
    [('utg/templates.py', 'if slug in externals:\n                s.dependencies', 'if slug in externals and slug not in data.VERBOSE_TO_PROPERTIES:\n                s.dependencies')],
    'a variable named like a property identifier',
    'a name that is both a variable and a property identifier is taken as the property',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|мн]', {'х': words.WordForm(noun), 'мн': words.WordForm(noun, P(r.CASE.DATIVE))}), noun.form(P(r.CASE.DATIVE)))
''')

bug('c04-self-dependency', 'C04',
    [('utg/templates.py', 'properties.append(externals[dependency].properties)', 'properties.append(externals[dependency].word.properties if dependency == self.id else externals[dependency].properties)')],
    'a variable that depends on itself after another property ([х|им|х] with х recognised in the genitive)',
    'a self-dependency gives the properties of the word instead of those of the recognised form',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|дт|х]', {'х': words.WordForm(noun, P(r.CASE.GENITIVE))}), noun.form(P(r.CASE.GENITIVE)))
''')

bug('c04-seen-properties', 'C04',
    [('utg/templates.py', '            if isinstance(dependency, words.Properties):\n                properties.append(dependency)', '            if isinstance(dependency, words.Properties):\n                if dependency not in properties:\n                    properties.append(dependency)')],
    'the same property set listed twice with a different one of the same category between them',
    'a repeated property set is applied only at its first position',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|рд|дт|рд]', {'х': words.WordForm(noun)}), noun.form(P(r.CASE.GENITIVE)))
''')

# ---------------------------------------------------------------- C05
bug('c05-empty-item', 'C05',
    [('utg/templates.py', '            if not slug:\n                continue', '            if not slug:\n                break')],
    'an empty item in the middle of a comma list',
    'everything after an empty list item is dropped, unknown identifiers included',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|мн,,рд]', {'х': words.WordForm(noun)}), noun.form(P(r.NUMBER.PLURAL, r.CASE.GENITIVE)))
''')

bug('c05-upper-dependency', 'C05',
    [('utg/templates.py', '            slug = slug.lower().strip()\n            if slug in externals:', '            slug = slug.strip()\n            if slug in externals:'),
     ('utg/templates.py', '            if slug not in data.VERBOSE_TO_PROPERTIES:', '            slug = slug.lower()\n            if slug not in data.VERBOSE_TO_PROPERTIES:')],
    'the name of a variable written with a capital letter in the place of a dependency',
    'letter case matters in the names of dependencies (identifiers of properties still work)',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|Другой]', {'х': words.WordForm(noun), 'другой': words.WordForm(noun, P(r.CASE.DATIVE))}), noun.form(P(r.CASE.DATIVE)))
''')

bug('c05-unknown-id-text', 'C05',
    [('utg/templates.py', 'raise exceptions.UnknownVerboseIdError(verbose_id=slug)', 'raise exceptions.UnknownVerboseIdError(verbose_id=text)')],
    'an unknown identifier inside a list of several identifiers',
    'the error names the whole list instead of the unknown identifier',
    '''
try:
    parse('[х|мн,ъъ,рд]', ['х'])
except exceptions.UnknownVerboseIdError as e:
    eq(e.arguments, {'verbose_id': 'ъъ'})
    sys.exit(0)
sys.exit(1)
''')

bug('c05-parse-appends', 'C05',
    [('utg/templates.py', '        variables = _VARIABLE_REGEX.findall(text)\n', "        variables = _VARIABLE_REGEX.findall(text) or None\n\n        if variables is None:\n            self.template = text.replace('%', '%%')\n            return\n")],
    'a template object parsed first with variables and then again with a text without any',
    'a second parse does not replace the substitutions of the first one when the new text has no variables',
    '''
template = parse('[х]', ['х'])
template.parse('просто', externals=['х'])
x = words.WordForm(word(r.WORD_TYPE.TEXT, ['т']))
eq(template.substitute({'х': x}, dictionary.Dictionary()), 'просто')
''')

# ---------------------------------------------------------------- C06
bug('c06-zero-value', 'C06',
    [('utg/words.py', "                     property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) #", "                     property_value and property_value in r.PROPERTY_TYPE(int(property_type)).relation.index_value]) #")],
    'a stored property set that specifies a value whose number is 0, merged over something else',
    'values numbered 0 are taken for absent when stored properties are read',
    '''
p = P(r.CASE.NOMINATIVE)
q = P.deserialize(json.loads(json.dumps(p.serialize())))
eq(P(r.CASE.DATIVE, q).get(r.CASE), r.CASE.NOMINATIVE)
''')

bug('c06-unknown-value', 'C06',
    [('utg/words.py', "        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)\n                     for property_type, property_value in data.items()\n                     if int(property_type) in r.PROPERTY_TYPE.index_value and",
      "        known = [(property_type, property_value)\n                 for property_type, property_value in data.items()\n                 if int(property_type) in r.PROPERTY_TYPE.index_value]\n        return cls(*[r.PROPERTY_TYPE(int(property_type)).relation(property_value)\n                     for property_type, property_value in known[:20]\n                     if")],
    'a stored property set with more than 20 categories known today',
    'nothing (placeholder)', 'sys.exit(0)')
BUGS.pop()

bug('c06-digit-dependency', 'C06',
    [('utg/templates.py', "obj.dependencies = [dep if isinstance(dep, str) else words.Properties.deserialize(dep) for dep in data['dependencies']]",
      "obj.dependencies = [dep if isinstance(dep, str) else words.Properties.deserialize(dep) for dep in data['dependencies'] if dep]")],
    'a stored template with an empty dependency compared with the original',
    'empty dependencies are lost on reading: the template read back differs from the stored one',
    '''
t = parse('[х|]', ['х'])
eq(templates.Template.deserialize(json.loads(json.dumps(t.serialize()))) == t, True)
''')

bug('c06-lower-template', 'C06',
    [('utg/templates.py', "return {'template': self.template,", "return {'template': self.template.strip(),")],
    'a template whose text begins or ends with a space or a line break',
    'outer white space is lost when a template is stored',
    '''
t = parse('текст [х]\\n', ['х'])
u = templates.Template.deserialize(json.loads(json.dumps(t.serialize())))
x = words.WordForm(word(r.WORD_TYPE.TEXT, ['т']))
eq(u.substitute({'х': x}, dictionary.Dictionary()), 'текст т\\n')
''')

# ---------------------------------------------------------------- C07
bug('c07-last-wins', 'C07',
    [('utg/dictionary.py', 'if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance():', 'if word_form.properties.manhattan_distance() <= registered_form.properties.manhattan_distance():')],
    'two forms of one word with the same text and equally far from the defaults (genitive and accusative)',
    'on a complete tie the last added form is found instead of the first',
    '''
forms = ['х%d' % i for i in range(len(data.WORDS_CACHES[r.WORD_TYPE.NOUN]))]
forms[1] = forms[3] = 'один'
w = word(r.WORD_TYPE.NOUN, forms)
eq(dictionary.Dictionary(words=[w]).get_word('один').properties.get(r.CASE), r.CASE.GENITIVE)
''')

bug('c07-normal-form-order', 'C07',
    [('utg/dictionary.py', 'if word_form.word.forms < registered_form.word.forms:', 'if word_form.word.forms[:2] < registered_form.word.forms[:2]:'),
     ('utg/dictionary.py', 'if word_form.word.forms > registered_form.word.forms:', 'if word_form.word.forms[:2] > registered_form.word.forms[:2]:')],
    'two words of one part of speech that agree in the first two forms and differ later, added in either order',
    'which homonym is found depends on the order in which the words were added',
    '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
a = word(r.WORD_TYPE.NOUN, ['д', 'д'] + ['а'] * (n - 2))
b = word(r.WORD_TYPE.NOUN, ['д', 'д'] + ['б'] * (n - 2))
eq(dictionary.Dictionary(words=[b, a]).get_word('д').word.forms, a.forms)
eq(dictionary.Dictionary(words=[a, b]).get_word('д').word.forms, a.forms)
''')

bug('c07-lower-fallback', 'C07',
    [('utg/dictionary.py', '        word = self._data.get(text)\n', '        word = self._data.get(text)\n\n        if word is None:\n            word = self._data.get(text.strip())\n')],
    'a lookup of a known text with a space around it',
    'a text that is not a form of any word is found',
    '''
d = dictionary.Dictionary(words=[word(r.WORD_TYPE.TEXT, ['т'])])
try:
    d.get_word('т ')
except exceptions.NoWordsFoundError:
    sys.exit(0)
sys.exit(1)
''')

bug('c07-same-word-return', 'C07',
    [('utg/dictionary.py', '            if word_form.word.forms < registered_form.word.forms:\n                self._data[word_form.form] = word_form\n                continue\n\n            if word_form.word.forms > registered_form.word.forms:\n                continue\n',
      '            if word_form.word.forms < registered_form.word.forms:\n                self._data[word_form.form] = word_form\n                continue\n\n            if word_form.word.forms > registered_form.word.forms:\n                return\n')],
    'a word that loses a homonym comparison on one form and has further forms of its own',
    'the remaining forms of a word are not added after it loses to a registered homonym: the outcome depends on the order of additions',
    '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
a = word(r.WORD_TYPE.NOUN, ['а', 'д'] + ['а%d' % i for i in range(n - 2)])
b = word(r.WORD_TYPE.NOUN, ['б', 'д'] + ['б%d' % i for i in range(n - 2)])
d = dictionary.Dictionary(words=[a, b])
eq(d.has_word('б3'), True)
''')

# ---------------------------------------------------------------- C08
bug('c08-nearest-ineligible', 'C08',
    [('utg/lexicon.py', '            if not template_restrictions.issubset(restrictions):\n                continue\n\n            distance = len(template_restrictions & restrictions)\n\n            if best_distance < distance:\n                best_distance = distance\n\n            templates',
      '            distance = len(template_restrictions & restrictions)\n\n            if best_distance < distance:\n                best_distance = distance\n\n            if not template_restrictions.issubset(restrictions):\n                continue\n\n            templates')],
    'a template that is not eligible but shares more restrictions with the request than any eligible one',
    'the nearest-template request fails although an eligible template exists',
    '''
l = lexicon.Lexicon()
l.add_template('k', 'T0', frozenset())
l.add_template('k', 'T1', frozenset((('a', 1), ('b', 2))))
eq(l.get_random_nearest_template('k', frozenset((('a', 1),))), 'T0')
''')

bug('c08-same-template', 'C08',
    [('utg/lexicon.py', '        self._data[key].append((template, restrictions))', '        if (template, restrictions) not in self._data[key]:\n            self._data[key].append((template, restrictions))')],
    'one template registered twice (or two equal templates) under one key with the same restrictions',
    'a repeated registration does not raise the chance of a template any more',
    '''
l = lexicon.Lexicon()
for t in ('A', 'A', 'B'):
    l.add_template('k', t, frozenset())
eq(sorted(l.get_templates('k', frozenset())), ['A', 'A', 'B'])
''')

bug('c08-key-error-kind', 'C08',
    [('utg/lexicon.py', "        candidates = self._get_nearest_templates(key, restrictions)\n\n        if not candidates:", "        candidates = self._get_nearest_templates(key, restrictions)\n\n        if not candidates and not restrictions:\n            raise exceptions.UnknownLexiconKeyError(key=key)\n\n        if not candidates:")],
    'a nearest-template request without restrictions for a known key all of whose templates are restricted',
    'a known key without eligible templates is reported as an unknown key',
    '''
l = lexicon.Lexicon()
l.add_template('k', 'T1', frozenset((('a', 1),)))
try:
    l.get_random_nearest_template('k')
except exceptions.NoTemplatesWithSpecifiedRestrictions:
    sys.exit(0)
sys.exit(1)
''')

# ---------------------------------------------------------------- C09
bug('c09-negative-million', 'C09',
    [('utg/constructors.py', '    form = str(number)\n    number = abs(number)\n\n    if number in (1000000, 1000000000):\n        properties = INTEGER_PROPERTIES.IS_KKK.properties\n    elif number == 1:',
      '    form = str(number)\n\n    if number in (1000000, 1000000000):\n        properties = INTEGER_PROPERTIES.IS_KKK.properties\n        return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[form], properties=properties))\n\n    number = abs(number)\n\n    if number == 1:')],
    'minus one million or minus one billion',
    'the class of a negative million or billion is that of ordinary numbers',
    '''
eq(constructors.construct_integer(-1000000).properties.get(r.INTEGER_FORM), r.INTEGER_FORM.MIL_BIL)
''')

bug('c09-multiples-of-billion', 'C09',
    [('utg/constructors.py', 'if number in (1000000, 1000000000):', 'if number and (number % 1000000000 == 0 or number == 1000000):')],
    'a multiple of one billion other than one billion itself',
    'two billion and the like get the class of million and billion',
    '''
eq(constructors.construct_integer(2000000000).properties.get(r.INTEGER_FORM), r.INTEGER_FORM.PLURAL)
''')

bug('c09-hundreds', 'C09',
    [('utg/constructors.py', 'elif 10 <= number % 100 <= 19:', 'elif 10 <= int(form[-2:]) <= 19:')],
    'a two-digit text tail that is a sign and a digit... (placeholder)', '', 'sys.exit(0)')
BUGS.pop()

bug('c09-cache-right', 'C09',
    [('utg/constructors.py', 'if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:', 'if _INTEGER_CACHE_LEFT - (_INTEGER_CACHE is not None) <= number <= _INTEGER_CACHE_RIGHT:')],
    'minus one, requested after some small number (the cache exists by then)',
    'after the cache was filled, minus one is answered with the last cached number',
    '''
constructors.construct_integer(7)
eq(constructors.construct_integer(-1).form, '-1')
''')

bug('c09-teens-of-thousands', 'C09',
    [('utg/constructors.py', 'elif 10 <= number % 100 <= 19:', 'elif 10 <= number % (100 if number < 10 ** 5 else 1000) <= 19:')],
    'a number above one hundred thousand that ends in 11..14 with a non-zero hundreds digit',
    'numbers such as 100111 and 123412 get the class of those ending in one and in two to four',
    '''
eq(constructors.construct_integer(100111).properties.get(r.INTEGER_FORM), r.INTEGER_FORM.PLURAL)
''')

# ---------------------------------------------------------------- C10
bug('c10-compound-accusative', 'C10',
    [('utg/transformators.py', "    if integer_form.is_COMPOSITE_DUAL:\n        if case.is_NOMINATIVE:\n            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)\n        if case.is_ACCUSATIVE:\n            return properties.clone(r.NOUN_FORM.NORMAL,",
      "    if integer_form.is_COMPOSITE_DUAL:\n        if case.is_NOMINATIVE:\n            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)\n        if case.is_ACCUSATIVE and animality.is_INANIMATE:\n            return properties.clone(r.NOUN_FORM.NORMAL,")],
    'an animate noun in the accusative with a compound numeral ending in 2..4',
    'compound numerals follow the rule of simple two, three and four for animate nouns',
    '''
noun = word(r.WORD_TYPE.NOUN, None, r.ANIMALITY.ANIMATE)
eq(generate('[х|вн|ч]', {'х': words.WordForm(noun), 'ч': constructors.construct_integer(22)}), noun.form(P(r.CASE.GENITIVE)))
''')

bug('c10-semantic-countable', 'C10',
    [('utg/transformators.py', "            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR)\n        else:\n            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.PLURAL)", "            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR)\n        else:\n            return properties.clone(r.NUMBER.PLURAL)")],
    'a noun requested in the countable form with semantic dependency on a numeral of class other than one',
    'semantic dependency keeps the countable form',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|счт,сзв|ч]', {'х': words.WordForm(noun), 'ч': constructors.construct_integer(5)}), noun.form(P(r.NUMBER.PLURAL)))
''')

bug('c10-neuter-adjective', 'C10',
    [('utg/transformators.py', "            if gender.is_MASCULINE or gender.is_NEUTER:", "            if gender.is_MASCULINE or (gender.is_NEUTER and case.is_NOMINATIVE):"),
     ('utg/transformators.py', "            if gender.is_FEMININE:\n", "            if not gender.is_MASCULINE:\n")],
    'a neuter adjective in the accusative with two, three or four',
    'the neuter adjective takes the form of the feminine one',
    '''
adj = word(r.WORD_TYPE.ADJECTIVE)
eq(generate('[х|вн,ср|ч]', {'х': words.WordForm(adj), 'ч': constructors.construct_integer(3)}), adj.form(P(r.NUMBER.PLURAL, r.CASE.GENITIVE)))
''')

bug('c10-second-numeral', 'C10',
    [('utg/templates.py', "            form_properties = transformators.transform(slave_word=base_form.word,\n                                                       slave_propeties=form_properties,",
      "            form_properties = transformators.transform(slave_word=base_form.word,\n                                                       slave_propeties=properties,")],
    'a word with two dependencies of which the first one changes its form and the second does not',
    'the change of form required by a numeral is lost when another dependency follows it',
    '''
noun = word(r.WORD_TYPE.NOUN)
other = words.WordForm(word(r.WORD_TYPE.TEXT, ['т']))
eq(generate('[х|ч|т]', {'х': words.WordForm(noun), 'ч': constructors.construct_integer(3), 'т': other}), noun.form(P(r.CASE.GENITIVE)))
''')

# ---------------------------------------------------------------- C11
bug('c11-soft-sign', 'C11',
    [('utg/data.py', "CONSONANTS = set('бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ')", "CONSONANTS = set('бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧЩЪЬ')")],
    'a capitalised word beginning with Ш and a consonant (one-syllable with a fluent vowel)',
    'a capital Ш is not counted as a consonant: the form of the preposition depends on capitalisation',
    '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
prep = word(r.WORD_TYPE.PREPOSITION, ['с', 'со', 'со'])
shov = word(r.WORD_TYPE.NOUN, ['шов'] + ['шва'] * (n - 1))
text = generate('[п|х|тв] [х|тв]', {'п': words.WordForm(prep), 'х': words.WordForm(shov, P(r.CASE.GENITIVE))})
eq(text, generate('[п|х|тв] [х|тв]', {'п': words.WordForm(prep), 'х': words.WordForm(shov, P(r.CASE.GENITIVE, r.WORD_CASE.UPPER))}).lower())
''')

bug('c11-fluent-or', 'C11',
    [('utg/transformators.py', "         master_form.word.number_of_syllables == 1 and\n         master_form.word.has_fluent_vowel):", "         (master_form.word.number_of_syllables == 1 or slave == 'к') and\n         master_form.word.has_fluent_vowel):")],
    'the preposition "к" before a word of several syllables with a cluster and a fluent vowel',
    'the alternative form is used before long words too',
    '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
prep = word(r.WORD_TYPE.PREPOSITION, ['к', 'ко', 'ко'])
x = word(r.WORD_TYPE.NOUN, ['кусок'] + ['кска'] * (n - 1))
eq(generate('[п|х]', {'п': words.WordForm(prep), 'х': words.WordForm(x, P(r.CASE.DATIVE))}), 'к')
''')

bug('c11-normal-form-of-master', 'C11',
    [('utg/transformators.py', "    # http://newforum.gramota.ru/viewtopic.php?f=3&t=1045\n\n    master = master_form.form\n", "    # http://newforum.gramota.ru/viewtopic.php?f=3&t=1045\n\n    master = master_form.word.normal_form()\n")],
    'a following word whose inserted form and normal form begin with different letters (весь - всех)',
    'the preposition is chosen by the normal form of the following word instead of the inserted one',
    '''
prep = word(r.WORD_TYPE.PREPOSITION, ['с', 'со', 'со'])
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
x = word(r.WORD_TYPE.NOUN, ['огонь'] + ['сгоня'] * (n - 1))
eq(generate('[п|х]', {'п': words.WordForm(prep), 'х': words.WordForm(x, P(r.CASE.GENITIVE))}), 'со')
''')

# ---------------------------------------------------------------- C12
bug('c12-filled-as-source', 'C12',
    [('utg/words.py', "            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]\n", "            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]\n            available_keys.append(inverted_cache[i])\n")],
    'a word with two given forms such that a slot is nearer to a filled slot than to a given one',
    'forms that were filled in are used as sources for further ones',
    '''
for given in [(0, 13), (1, 9), (5, 6), (2, 16), (0, 6), (4, 11), (3, 14)]:
    forms = [''] * len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
    for i in given:
        forms[i] = 'ф%d' % i
    w = words.Word(type=r.WORD_TYPE.NOUN, forms=list(forms))
    w.autofill_missed_forms()
    keys = data.INVERTED_WORDS_CACHES[r.WORD_TYPE.NOUN]
    for i, text in enumerate(w.forms):
        best = max(given, key=lambda g: (round(sum(1 + 0.01 * k for k, (a, b) in enumerate(zip(keys[i], keys[g])) if a == b), 6), -g))
        eq(text, 'ф%d' % best)
for type, given in [(r.WORD_TYPE.VERB, (1, 20)), (r.WORD_TYPE.PRONOUN, (3, 30)), (r.WORD_TYPE.ADJECTIVE, (2, 60)), (r.WORD_TYPE.VERB, (4, 16)), (r.WORD_TYPE.PRONOUN, (7, 40))]:
    forms = [''] * len(data.WORDS_CACHES[type])
    for i in given:
        forms[i] = 'ф%d' % i
    w = words.Word(type=type, forms=list(forms))
    w.autofill_missed_forms()
    keys = data.INVERTED_WORDS_CACHES[type]
    for i, text in enumerate(w.forms):
        best = max(given, key=lambda g: (round(sum(1 + 0.01 * k for k, (a, b) in enumerate(zip(keys[i], keys[g])) if a == b), 6), -g))
        eq(text, 'ф%d' % best)
''')

bug('c12-weights', 'C12',
    [('utg/logic.py', "current_similarity += (1 + 0.01 * index)", "current_similarity += (1 + 0.1 * index)")],
    'a participle or an adjective (six categories) with few given forms, one agreeing in more and another in later categories',
    'late categories outweigh the number of agreeing ones',
    '''
from itertools import combinations
for type in (r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.PARTICIPLE):
    keys = data.INVERTED_WORDS_CACHES[type]
    for i, a in enumerate(keys):
        eq(logic.get_nearest_key(a, keys), a)
    for a, b in combinations(range(0, len(keys), 3), 2):
        forms = [''] * len(keys)
        forms[a], forms[b] = 'а', 'б'
        w = words.Word(type=type, forms=forms)
        w.autofill_missed_forms()
        for key, text in zip(keys, w.forms):
            na, nb = (sum(x == y for x, y in zip(key, keys[i])) for i in (a, b))
            if na != nb:
                eq(text, 'а' if na > nb else 'б')
''')

bug('c12-none-agreement', 'C12',
    [('utg/logic.py', "            if key_property == available_key_property:\n", "            if key_property is not None and key_property == available_key_property:\n")],
    'a slot without some category (plural, short form) with sources that lack it too',
    'a category absent in both slots does not count as agreement',
    '''
type = r.WORD_TYPE.ADJECTIVE
keys = data.INVERTED_WORDS_CACHES[type]
for a in range(0, len(keys), 5):
    for b in range(1, len(keys), 5):
        forms = [''] * len(keys)
        forms[a], forms[b] = 'а', 'б'
        w = words.Word(type=type, forms=forms)
        w.autofill_missed_forms()
        for key, text in zip(keys, w.forms):
            na, nb = (sum(x == y for x, y in zip(key, keys[i])) for i in (a, b))
            if na != nb:
                eq(text, 'а' if na > nb else 'б')
''')

# ---------------------------------------------------------------- C13
bug('c13-in-place-merge', 'C13',
    [('utg/templates.py', "            base_form = externals[self.id]\n", "            base_form = externals[self.id]\n            if len(self.dependencies) > 2:\n                base_form.properties._update(base_form.word.properties)\n                base_form.form_properties._update(*[d for d in self.dependencies if isinstance(d, words.Properties)])\n")],
    'a substitution with more than two dependencies, and another use of the same variable afterwards',
    'generation writes its properties into the variable',
    '''
noun = word(r.WORD_TYPE.NOUN)
x = words.WordForm(noun, P(r.CASE.DATIVE))
before = generate('[х]', {'х': x})
generate('[х|мн|рд|ед,вн]', {'х': x})
eq(generate('[х]', {'х': x}), before)
''')

bug('c13-negative-cache', 'C13',
    [('utg/dictionary.py', "        word = self._data.get(text)\n\n        if word is None:\n            raise", "        word = self._data.setdefault(text, None)\n\n        if word is None:\n            raise"),
     ('utg/dictionary.py', "        return set(word_form.word for word_form in self._data.values())", "        return set(word_form.word for word_form in self._data.values() if word_form is not None)")],
    'a failed lookup followed by has_word (or by adding the word)',
    'a failed lookup changes the dictionary: the text is reported as known afterwards',
    '''
d = dictionary.Dictionary()
t = parse('[х]')
eq(t.get_undictionaried_words({}, d), ['х'])
try:
    t.substitute({}, d)
except exceptions.NoWordsFoundError:
    pass
eq(t.get_undictionaried_words({}, d), ['х'])
''')

bug('c13-normal-form-memo', 'C13',
    [('utg/words.py', "    def normal_form(self):\n        return self.form(properties=self.properties)", "    @utils.lazy_property\n    def _normal_form(self):\n        return self.form(properties=self.properties)\n\n    def normal_form(self):\n        return self._normal_form"),
     ('utg/words.py', "'_lazy__number_of_syllables', '_lazy__has_fluent_vowel')", "'_lazy__number_of_syllables', '_lazy__has_fluent_vowel', '_lazy___normal_form')")],
    'a word asked for its normal form before and after its missing forms are filled in',
    'the normal form asked for first is remembered: the answer depends on whether the word was asked before',
    '''
w = word(r.WORD_TYPE.NOUN, ['', 'б'])
w.normal_form()
w.autofill_missed_forms()
eq(w.normal_form(), 'б')
''')

bug('c13-template-mutates-dependencies', 'C13',
    [('utg/templates.py', "            raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)\n\n        return", "            self.dependencies.remove(dependency)\n            raise exceptions.ExternalDependecyNotFoundError(dependency=dependency)\n\n        return")],
    'a generation that fails because a referenced variable is missing, then another generation from the same template',
    'a failed generation removes the dependency from the template',
    '''
noun = word(r.WORD_TYPE.NOUN)
x = words.WordForm(noun)
y = words.WordForm(noun, P(r.CASE.DATIVE))
t = parse('[х|у]', ['х', 'у'])
try:
    t.substitute({'х': x}, dictionary.Dictionary())
except exceptions.ExternalDependecyNotFoundError:
    pass
eq(t.substitute({'х': x, 'у': y}, dictionary.Dictionary()), noun.form(P(r.CASE.DATIVE)))
''')

# ---------------------------------------------------------------- C14
THREADS = '''
import threading
sys.setswitchinterval(1e-6)


def run(jobs, rounds=1):
    """runs the jobs at the same time; returns what each gave (or the exception)"""
    results = [None] * len(jobs)
    barrier = threading.Barrier(len(jobs))

    def body(i):
        barrier.wait()
        try:
            results[i] = jobs[i]()
        except Exception as e:
            results[i] = repr(e)
    threads = [threading.Thread(target=body, args=(i,)) for i in range(len(jobs))]
    [t.start() for t in threads]
    [t.join() for t in threads]
    return results
'''
bug('c14-cache-published-early', 'C14',
    [('utg/constructors.py', "            _INTEGER_CACHE = tuple(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))",
      "            _INTEGER_CACHE = []\n            _INTEGER_CACHE.extend(_construct_integer(i+_INTEGER_CACHE_LEFT) for i in range(_INTEGER_CACHE_RIGHT-_INTEGER_CACHE_LEFT+1))")],
    'two threads constructing their first number at the same time',
    'the cache of numbers is visible to other threads before it is filled: IndexError or a wrong number',
    THREADS + '''
eq(run([lambda n=n: constructors.construct_integer(n).form for n in (9000, 9001, 9002, 9003)]), ['9000', '9001', '9002', '9003'])
''')

bug('c14-lazy-marker', 'C14',
    [('utg/utils.py', "            setattr(self, lazy_name, func(self))\n", "            setattr(self, lazy_name, None) # guard against recursion\n            setattr(self, lazy_name, func(self))\n")],
    'a second thread reading a lazy property of a shared word or form while the first one computes it',
    'the second thread gets None for the phonetic feature or the text of the form',
    THREADS + '''
for attempt in range(60):
    n = len(data.WORDS_CACHES[r.WORD_TYPE.ADJECTIVE])
    w = word(r.WORD_TYPE.ADJECTIVE, ['сон' * 400] + ['сна' * 400] * (n - 1))
    jobs = [lambda: w.has_fluent_vowel, lambda: w.has_fluent_vowel, lambda: w.has_fluent_vowel]
    eq(run(jobs), [True, True, True])
''')

bug('c14-template-scratch', 'C14',
    [('utg/templates.py', "        properties = []\n        external_words = []\n\n        for dependency in self.dependencies:", "        properties, external_words = _SCRATCH\n        del properties[:], external_words[:]\n\n        for dependency in self.dependencies:"),
     ('utg/templates.py', "        return properties, external_words\n", "        return list(properties), list(external_words)\n"),
     ('utg/templates.py', "class Substitution(object):\n", "_SCRATCH = ([], []) # reused to avoid allocations\n\n\nclass Substitution(object):\n")],
    'two threads generating at the same time, switched in the middle of collecting dependencies',
    'the dependencies of one generation leak into another',
    THREADS + '''
noun = word(r.WORD_TYPE.NOUN)
x, y = words.WordForm(noun, P(r.CASE.GENITIVE)), words.WordForm(noun, P(r.CASE.DATIVE, r.NUMBER.PLURAL))
ext = {'х': x, 'у': y}
d = dictionary.Dictionary()
a, b = parse('[х' + '|вн|х|мн' * 40 + ']', ext), parse('[у' + '|пр|у|ед' * 40 + ']', ext)
want = (a.substitute(ext, d), b.substitute(ext, d))


def many(t, w):
    def job():
        for i in range(1500):
            if t.substitute(ext, d) != w:
                return False
        return True
    return job


eq(run([many(a, want[0]), many(b, want[1]), many(a, want[0]), many(b, want[1])]), [True] * 4)
''')

bug('c14-word-form-memo', 'C14',
    [('utg/words.py', "        index = data.RAW_WORDS_CACHES[self.type][properties.get_raw_key(self.type.schema)]\n        return self.forms[index]",
      "        global _LAST_KEY, _LAST_INDEX\n\n        key = (self.type, properties.get_raw_key(self.type.schema))\n        if key != _LAST_KEY:\n            _LAST_KEY = key\n            _LAST_INDEX = data.RAW_WORDS_CACHES[key[0]][key[1]]\n        return self.forms[_LAST_INDEX]"),
     ('utg/words.py', "class Word(object):\n", "_LAST_KEY = None\n_LAST_INDEX = None\n\n\nclass Word(object):\n")],
    'two threads asking for different forms, switched between writing the remembered key and its index',
    'one thread is given the form another thread asked for',
    THREADS + '''
noun = word(r.WORD_TYPE.NOUN)
a, b = P(r.CASE.DATIVE), P(r.CASE.GENITIVE, r.NUMBER.PLURAL)
want = (noun.form(a), noun.form(b))


def many(p, w):
    def job():
        for i in range(60000):
            if noun.form(p) != w:
                return False
        return True
    return job


eq(run([many(a, want[0]), many(b, want[1]), many(a, want[0]), many(b, want[1])]), [True] * 4)
''')

# ---------------------------------------------------------------- C15
bug('c15-default-equality', 'C15',
    [('utg/words.py', "        return (isinstance(other, Properties) and\n                self._data == other._data)", "        return (isinstance(other, Properties) and\n                all(self.get(relation) == other.get(relation) for relation in set(self._data) | set(other._data)))")],
    'comparing a set that specifies a default value with one that does not specify it',
    'a specified default value equals an unspecified one',
    '''
eq(P(r.CASE.NOMINATIVE) == P(), False)
''')

bug('c15-form-equality', 'C15',
    [('utg/words.py', "        return (self.word == other.word and\n                self.properties == other.properties)", "        return (self.word.type == other.word.type and self.word.properties == other.word.properties and\n                self.form == other.form and\n                self.properties == other.properties)")],
    'two words that share the text of one form and differ in another',
    'forms of different words are equal when their texts happen to coincide',
    '''
a, b = word(r.WORD_TYPE.NOUN, ['а', 'б']), word(r.WORD_TYPE.NOUN, ['а', 'в'])
eq(words.WordForm(a) == words.WordForm(b), False)
''')

bug('c15-foreign', 'C15',
    [('utg/words.py', "        return (isinstance(other, Word) and\n                self.type", "        return (hasattr(other, 'properties') and\n                self.type")],
    'comparing a word with a word form',
    'comparison with an object that is not a word raises AttributeError',
    '''
w = word(r.WORD_TYPE.NOUN)
eq(w == words.WordForm(w), False)
''')

bug('c15-hash-order', 'C15',
    [('utg/words.py', "        return self.manhattan_distance()\n", "        return hash(tuple(self._data.values()))\n")],
    'two equal property sets built in different orders',
    'equal property sets have different hashes',
    '''
eq(hash(P(r.CASE.DATIVE, r.NUMBER.PLURAL)), hash(P(r.NUMBER.PLURAL, r.CASE.DATIVE)))
''')

# ---------------------------------------------------------------- C16
bug('c16-preposition', 'C16',
    [('utg/migrations/m_0004_new_preposition_form.py', "word_data['forms'].append(word_data['forms'][-1])", "word_data['forms'].append(word_data['forms'][0])")],
    'a stored preposition whose two forms differ',
    'the new special form is filled from the normal form instead of the alternative one',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0004_new_preposition_form')
eq(m.migrate({'type': 10, 'forms': ['о', 'об'], 'properties': {}})['forms'], ['о', 'об', 'об'])
''')

bug('c16-participle-time', 'C16',
    [('utg/migrations/m_0005_remove_time_participle_property.py', "    if '5' in word_data['properties']:\n        del word_data['properties']['5']", "    if '5' in word_data['properties']:\n        word_data['properties'] = {k: v for k, v in word_data['properties'].items() if '5' not in k}")],
    'a stored participle that has both the time (5) and the voice (15)',
    'the voice of a participle is lost with its time',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0005_remove_time_participle_property')
eq(m.migrate({'type': 4, 'forms': [], 'properties': {'5': 1, '15': 1}})['properties'], {'15': 1})
''')

bug('c16-last-fallback', 'C16',
    [('utg/migrations/m_0009_pronoun_modernization.py', "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]", "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)] or new_forms[max(0, new_index - 1)]")],
    'a stored word with an unspecified form',
    'an empty form is silently replaced by its neighbour in the last migration',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0009_pronoun_modernization')
n = len(m.OLD_CACHES[r.WORD_TYPE.NOUN])
forms = ['ф%d' % i for i in range(n)]
forms[4] = ''
eq(m.migrate({'type': 0, 'forms': list(forms), 'properties': {}})['forms'].count(''), 1)
''')

bug('c16-noun-patches', 'C16',
    [('utg/migrations/m_0002_countable_noun_form.py', "word_data['forms'] += list(word_data['forms'][6:])", "word_data['forms'] += list(word_data['forms'][:6])")],
    'a stored noun without patches',
    'the new countable slots are filled from the singular',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0002_countable_noun_form')
f = ['ф%d' % i for i in range(12)]
eq(m.migrate({'type': 0, 'forms': list(f), 'patches': {}, 'properties': {}})['forms'], f + f[6:])
''')

# ---------------------------------------------------------------- C17
bug('c17-dedupe', 'C17',
    [('utg/templates.py', "            if dictionary.has_word(substitution.id):\n                continue\n", "            if dictionary.has_word(substitution.id) or substitution.id in words[-1:]:\n                continue\n")],
    'one unknown name used twice in a row',
    'consecutive repetitions are left out of the report',
    '''
eq(parse('[а] [а] [б]').get_undictionaried_words({}, dictionary.Dictionary()), ['а', 'а', 'б'])
''')

bug('c17-dictionary-precedence', 'C17',
    [('utg/templates.py', "        if self.id in externals:\n            base_form = externals[self.id]\n        else:\n", "        if self.id in externals and not (self.dependencies and dictionary.has_word(self.id)):\n            base_form = externals[self.id]\n        else:\n")],
    'a variable named like a word of the dictionary, used with a property',
    'the word of the dictionary is taken instead of the variable',
    '''
x = words.WordForm(word(r.WORD_TYPE.TEXT, ['переменная']))
eq(generate('[т|мн]', {'т': x}, [word(r.WORD_TYPE.TEXT, ['т'])]), 'переменная')
''')

bug('c17-missing-late', 'C17',
    [('utg/templates.py', "            base_form = dictionary.get_word(self.id)\n\n        properties_list, externals = self._list_propeties(externals=externals)\n", "            base_form = None\n\n        properties_list, externals = self._list_propeties(externals=externals)\n\n        if base_form is None:\n            base_form = dictionary.get_word(self.id)\n")],
    'a substitution whose word is unknown and which depends on a missing variable as well',
    'the missing variable is reported before the missing word',
    '''
t = parse('[неизвестно|у]', ['у'])
try:
    t.substitute({}, dictionary.Dictionary())
except exceptions.NoWordsFoundError:
    sys.exit(0)
except exceptions.UtgError:
    sys.exit(1)
sys.exit(1)
''')

# ---------------------------------------------------------------- C18
bug('c18-upper-first', 'C18',
    [('utg/templates.py', "            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))", "            s.dependencies.insert(0, words.Properties(r.WORD_CASE.UPPER))")],
    'a capitalised substitution that depends on a form recognised in lower case explicitly',
    'what is inherited from a dependency wins over capitalisation',
    '''
x = words.WordForm(word(r.WORD_TYPE.TEXT, ['т']))
y = words.WordForm(word(r.WORD_TYPE.TEXT, ['у']), P(r.WORD_CASE.LOWER))
eq(generate('[Х|у]', {'х': x, 'у': y}), 'Т')
''')

bug('c18-id-upper', 'C18',
    [('utg/templates.py', "        if s.id[0].isupper():", "        if s.id[0].isupper() or s.id.isupper():")],
    'a name that starts with a digit, quote or hyphen and has capital letters only',
    'a name that does not start with an upper-case letter capitalises its form',
    '''
x = words.WordForm(word(r.WORD_TYPE.TEXT, ['т']))
eq(generate('[1Х]', {'1х': x}), 'т')
''')

# ---------------------------------------------------------------- C19
bug('c19-order', 'C19',
    [('utg/words.py', "        return '(%s)' % (','.join(self._data[property.relation].verbose_id\n                                  for property in r.PROPERTY_TYPE.records\n                                  if property.relation in self._data))",
      "        return '(%s)' % (','.join(property.verbose_id for property in self._data.values()))")],
    'equal property sets built in different orders',
    'the text of a property set depends on how it was built',
    '''
eq(str(P(r.CASE.DATIVE, r.NUMBER.PLURAL)), str(P(r.NUMBER.PLURAL, r.CASE.DATIVE)))
''')

bug('c19-missing-category', 'C19',
    [('utg/words.py', "                                  for property in r.PROPERTY_TYPE.records\n                                  if property.relation in self._data))", "                                  for property in r.PROPERTY_TYPE.records[:-1]\n                                  if property.relation in self._data))")],
    'a property set with the dependency mode (the last category)',
    'the last category is left out of the text',
    '''
eq(str(P(r.DEPENDENCY_MODE.SEMANTIC)), '(сзв)')
''')

# ---------------------------------------------------------------- C20
bug('c20-capital-yo', 'C20',
    [('utg/data.py', "VOWELS = set('аеёиоуыэюяАЕЁИОУЫЭЮЯ')", "VOWELS = set('аеёиоуыэюяАЕИОУЫЭЮЯ')")],
    'a word with a capital Ё',
    'a capital Ё is not counted as a vowel',
    '''
eq(word(r.WORD_TYPE.TEXT, ['Ёлка']).number_of_syllables, 2)
''')

bug('c20-contains', 'C20',
    [('utg/words.py', "            if not form_vowels.startswith(base_vowels):", "            if base_vowels not in form_vowels:")],
    'a word whose other form has the vowels of the first one not at the beginning',
    'a fluent vowel is missed when the vowels of the first form occur later in another form',
    '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
eq(word(r.WORD_TYPE.NOUN, ['лоб'] + ['лябо'] * (n - 1)).has_fluent_vowel, True)
''')

bug('c20-break-on-empty', 'C20',
    [('utg/words.py', "            if not other_form: # form can be unspecified\n                continue", "            if not other_form: # form can be unspecified\n                break")],
    'a word with an empty form before the form that shows the fluent vowel',
    'forms after the first unspecified one are not looked at',
    '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
eq(word(r.WORD_TYPE.NOUN, ['сон', ''] + ['сна'] * (n - 2)).has_fluent_vowel, True)
''')

# ---------------------------------------------------------------- C21
bug('c21-import-cycle', 'C21',
    [('utg/logic.py', "from . import relations as r\n\n\ndef get_property_relations", "from . import relations as r\nfrom . import data\n\n\ndef get_property_relations")],
    'utg.logic imported before any other module of the library',
    'an import cycle: the library works only if utg.data (or a module using it) is imported first',
    '''
import subprocess
eq(subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import utg.logic']).returncode, 0)
''')

bug('c21-set-order', 'C21',
    [('utg/logic.py', "        nearest_key = get_nearest_key(key, cache.keys())", "        nearest_key = get_nearest_key(key, sorted(cache, key=lambda k: hash(str(k))))")],
    'a combination the grammar does not have with several equally near slots, under different hash seeds',
    'the nearest slot on a tie depends on hash randomisation',
    '''
import os, subprocess
code = """
from utg import data, relations as r
print([(data.RAW_WORDS_CACHES[t][k]) for t in r.WORD_TYPE.records for k in sorted(data.RAW_WORDS_CACHES[t], key=str)])
"""
out = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True).stdout for seed in range(6)}
eq(len(out), 1)
''')

# ---------------------------------------------------------------- second batch
BUGS[:] = [b for b in BUGS if b['id'] not in (
    'c01-raw-keys-source', 'c06-zero-value', 'c08-nearest-ineligible', 'c09-cache-right', 'c10-compound-accusative', 'c10-semantic-countable',
    'c10-neuter-adjective', 'c12-filled-as-source', 'c12-weights', 'c12-none-agreement', 'c14-word-form-memo', 'c18-title', 'c21-import-cycle')]

bug('c01-tie-last', 'C01',
    [('utg/logic.py', 'nearest_key = get_nearest_key(key, cache.keys())', 'nearest_key = get_nearest_key(key, list(cache.keys())[::-1])')],
    'a combination the grammar does not have with several equally near ones',
    'the last of equally near slots is taken instead of the earliest',
    '''
verb = word(r.WORD_TYPE.VERB)
table = data.WORDS_CACHES[r.WORD_TYPE.VERB]
schema = r.WORD_TYPE.VERB.schema
for number in r.NUMBER.records:
    for time in r.TIME.records:
        for person in r.PERSON.records:
            for gender in r.GENDER.records:
                full = (r.VERB_FORM.IMPERATIVE, time, number, person, gender)
                want, best = None, -1
                for key, index in sorted(table.items(), key=lambda p: p[1]):
                    score = sum(100 + i for i, (p, q) in enumerate(zip(key, full)) if p is None or p == q)
                    if score > best:
                        best, want = score, index
                eq(verb.form(P(*full)), verb.forms[want])
''')

bug('c06-default-values', 'C06',
    [('utg/words.py', "                for property_type, property in self._data.items()}", "                for property_type, property in self._data.items()\n                if property != data.DEFAULT_PROPERTIES[property_type]}")],
    'a stored property set that specifies a default value, merged over something else after reading',
    'values that equal the default are not stored',
    '''
p = P(r.CASE.NOMINATIVE)
q = P.deserialize(json.loads(json.dumps(p.serialize())))
eq(P(r.CASE.DATIVE, q).get(r.CASE), r.CASE.NOMINATIVE)
''')

bug('c06-stripped-forms', 'C06',
    [('utg/words.py', "                   forms=data['forms'],", "                   forms=[form.strip() for form in data['forms']],")],
    'a stored word one of whose forms begins or ends with white space',
    'white space around forms is lost when a word is read back',
    '''
w = word(r.WORD_TYPE.TEXT, [' т'])
eq(words.Word.deserialize(json.loads(json.dumps(w.serialize()))).forms, [' т'])
''')

bug('c08-get-creates-key', 'C08',
    [('utg/lexicon.py', "                          for template, template_restrictions in self._data.get(key, ())\n                          if", "                          for template, template_restrictions in self._data.setdefault(key, [])\n                          if")],
    'the templates of an unknown key listed before a random template is requested for it',
    'a listing registers the key: it is known afterwards and the error changes',
    '''
l = lexicon.Lexicon()
eq(list(l.get_templates('k', frozenset())), [])
eq(l.has_key('k'), False)
''')

bug('c09-long-text', 'C09',
    [('utg/constructors.py', "    form = str(number)\n", "    form = '%.0f' % number\n")],
    'a number with more than 15 digits',
    'the text of a very large number loses its last digits',
    '''
eq(constructors.construct_integer(10 ** 17 + 1).form, '100000000000000001')
''')

bug('c10-participle-pair', 'C10',
    [('utg/transformators.py', "(r.WORD_TYPE.PARTICIPLE, r.WORD_TYPE.INTEGER): _adjective_integer}", "(r.WORD_TYPE.PARTICIPLE, r.WORD_TYPE.INTEGER): _noun_integer}")],
    'a participle that depends on a numeral (2-4 in the nominative, masculine)',
    'participles follow the table of nouns',
    '''
w = word(r.WORD_TYPE.PARTICIPLE)
eq(generate('[х|ч]', {'х': words.WordForm(w), 'ч': constructors.construct_integer(3)}), w.form(P(r.NUMBER.PLURAL, r.CASE.GENITIVE)))
''')

bug('c10-own-class', 'C10',
    [('utg/transformators.py', "def _noun_integer(properties, slave_word=None, master_form=None):\n    # http://www.pf.ujep.cz/files/KBO/Nazarenko/cvicebnice_3_4/page34.html\n\n    integer_form = properties.get(r.INTEGER_FORM)",
      "def _noun_integer(properties, slave_word=None, master_form=None):\n    # http://www.pf.ujep.cz/files/KBO/Nazarenko/cvicebnice_3_4/page34.html\n\n    integer_form = properties.get(r.INTEGER_FORM) if master_form is None or properties.get(r.DEPENDENCY_MODE).is_SEMANTIC else master_form.word.properties.get(r.INTEGER_FORM)")],
    'a noun for which the template overrides the class of the numeral after the dependency ([слово|число|цо])',
    'a class of numeral given explicitly after the numeral is ignored',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|ч|цо]', {'х': words.WordForm(noun), 'ч': constructors.construct_integer(5)}), noun.form(P(r.NUMBER.SINGULAR)))
''')

bug('c11-iotated-capital', 'C11',
    [('utg/data.py', "J_VOWELS = set('еёюяЕЁЮЯ')", "J_VOWELS = set('еёюяЕЮЯ')")],
    'the preposition "о" before a word beginning with a capital Ё',
    'a capital Ё counts as a non-iotated vowel',
    '''
prep = word(r.WORD_TYPE.PREPOSITION, ['о', 'об', 'обо'])
eq(generate('[п|х]', {'п': words.WordForm(prep), 'х': words.WordForm(word(r.WORD_TYPE.TEXT, ['Ёлка']))}), 'о')
''')

bug('c12-weights', 'C12',
    [('utg/logic.py', "current_similarity += (1 + 0.01 * index)", "current_similarity += (1 + 0.3 * index)")],
    'an adjective or a participle with few given forms, one agreeing in more and another in later categories',
    'late categories outweigh the number of agreeing ones',
    '''
from itertools import combinations
for type in (r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.PARTICIPLE):
    keys = data.INVERTED_WORDS_CACHES[type]
    for a, b in combinations(range(0, len(keys), 3), 2):
        forms = [''] * len(keys)
        forms[a], forms[b] = 'а', 'б'
        w = words.Word(type=type, forms=forms)
        w.autofill_missed_forms()
        for key, text in zip(keys, w.forms):
            na, nb = (sum(x == y for x, y in zip(key, keys[i])) for i in (a, b))
            if na != nb:
                eq(text, 'а' if na > nb else 'б')
''')

bug('c13-default-words', 'C13',
    [('utg/dictionary.py', "        self._data = {}\n\n        for word in words:\n            self.add_word(word)\n", "        self._data = {}\n        self._words = words\n\n        for word in tuple(words):\n            self.add_word(word)\n"),
     ('utg/dictionary.py', "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_words')"),
     ('utg/dictionary.py', "    def get_words(self):\n        return set(word_form.word for word_form in self._data.values())", "    def get_words(self):\n        words = set(word_form.word for word_form in self._data.values())\n        self._words.extend(word for word in words if word not in self._words)\n        return words")],
    'a dictionary created without words, filled and listed, then another one created without words',
    'dictionaries created with default arguments share their words',
    '''
a = dictionary.Dictionary()
a.add_word(word(r.WORD_TYPE.TEXT, ['т']))
a.get_words()
eq(dictionary.Dictionary().has_word('т'), False)
''')

bug('c14-word-form-memo', 'C14',
    [('utg/words.py', "        index = data.RAW_WORDS_CACHES[self.type][properties.get_raw_key(self.type.schema)]\n        return self.forms[index]",
      "        global _LAST_KEY, _LAST_INDEX\n\n        key = (self.type, properties.get_raw_key(self.type.schema))\n        if key != _LAST_KEY:\n            _LAST_KEY = key\n            _LAST_INDEX = data.RAW_WORDS_CACHES[self.type].get(properties.get_raw_key(self.type.schema))\n        return self.forms[_LAST_INDEX]"),
     ('utg/words.py', "class Word(object):\n", "_LAST_KEY = None\n_LAST_INDEX = None\n\n\nclass Word(object):\n")],
    'two threads asking for different forms, switched between writing the remembered key and its index',
    'one thread is given the form another thread asked for',
    THREADS + '''
noun = word(r.WORD_TYPE.NOUN)
a, b = P(r.CASE.DATIVE), P(r.CASE.GENITIVE, r.NUMBER.PLURAL)
want = (noun.form(a), noun.form(b))


def many(p, w):
    def job():
        for i in range(60000):
            if noun.form(p) != w:
                return False
        return True
    return job


eq(run([many(a, want[0]), many(b, want[1]), many(a, want[0]), many(b, want[1])]), [True] * 4)
''')

bug('c14-shared-merge', 'C14',
    [('utg/templates.py', "        properties_list.append(base_form.word.properties)\n\n        properties = base_form.properties.clone(*properties_list)\n",
      "        properties_list.append(base_form.word.properties)\n\n        # one set is enough: it is only read below\n        properties = _PROPERTIES\n        properties._data.clear()\n        properties._update(base_form.properties, *properties_list)\n        properties = properties.clone()\n"),
     ('utg/templates.py', "class Substitution(object):\n", "_PROPERTIES = words.Properties()\n\n\nclass Substitution(object):\n")],
    'two threads generating at the same time, switched while one of them merges properties',
    'properties of one generation get into another',
    THREADS + '''
noun = word(r.WORD_TYPE.NOUN)
x, y = words.WordForm(noun, P(r.CASE.GENITIVE)), words.WordForm(noun, P(r.CASE.DATIVE, r.NUMBER.PLURAL))
ext = {'х': x, 'у': y}
d = dictionary.Dictionary()
a, b = parse('[х|вн]', ext), parse('[у|пр|ед]', ext)
want = (a.substitute(ext, d), b.substitute(ext, d))


def many(t, w):
    def job():
        for i in range(20000):
            if t.substitute(ext, d) != w:
                return False
        return True
    return job


eq(run([many(a, want[0]), many(b, want[1]), many(a, want[0]), many(b, want[1])]), [True] * 4)
''')

bug('c18-second-capital', 'C18',
    [('utg/words.py', "        if properties.get(r.WORD_CASE).is_UPPER:\n", "        if properties.get(r.WORD_CASE).is_UPPER and not form[1:].isupper():\n")],
    'a capitalised form whose remaining letters are all capitals (iPHONE-like spelling)',
    'a form whose other letters are capitals is not capitalised',
    '''
eq(generate('[Х]', {'х': words.WordForm(word(r.WORD_TYPE.TEXT, ['аСССР']))}), 'АСССР')
''')

bug('c19-identifier-twice', 'C19',
    [('utg/relations.py', "('VAGUE', 8, 'неопределённое', 'неопр')", "('VAGUE', 8, 'неопределённое', 'опред')"),
     ('utg/relations.py', "('ATTRIBUTIVE', 6, 'определительное', 'опред')", "('ATTRIBUTIVE', 6, 'определительное', 'определ')")],
    'the text of a property set with an indefinite or attributive pronoun category, read back',
    'identifiers of two values are moved: a stored text means something else',
    '''
eq(str(P(r.PRONOUN_CATEGORY.ATTRIBUTIVE)), '(опред)')
''')

bug('c21-import-cycle', 'C21',
    [('utg/words.py', "_INVERTED_WORDS_CACHES__PROPERTIES = {}\n", "from utg import constructors\n\nINTEGER_PROPERTIES = constructors.INTEGER_PROPERTIES\n\n_INVERTED_WORDS_CACHES__PROPERTIES = {}\n")],
    'utg.constructors imported before utg.words',
    'an import cycle: the library works only if utg.words is imported before utg.constructors',
    '''
import subprocess
eq(subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import utg.constructors']).returncode, 0)
''')

bug('c17-report-set', 'C17',
    [('utg/templates.py', "            words.append(substitution.id)\n\n        return words", "            words.append(substitution.id)\n            externals = set(externals) - {substitution.id}\n\n        return sorted(words, key=len)")],
    'several unknown names of different lengths, the longer one first',
    'the report is not in the order of appearance',
    '''
eq(parse('[длинное] [а]').get_undictionaried_words({}, dictionary.Dictionary()), ['длинное', 'а'])
''')

bug('c07-words-by-normal-form', 'C07',
    [('utg/dictionary.py', "            if word_form.word.type.value > registered_form.word.type.value:\n                continue\n", "            if word_form.word.type.value > registered_form.word.type.value and len(registered_form.form) > 1:\n                continue\n")],
    'a one-letter text that is a form of two parts of speech, the lower-numbered one added first',
    'for one-letter texts the comparison goes on to the texts when the part of speech should decide',
    '''
n = word(r.WORD_TYPE.NOUN, ['я'] * 18)
t = word(r.WORD_TYPE.TEXT, ['я'])
eq(dictionary.Dictionary(words=[n, t]).get_word('я').word.type, r.WORD_TYPE.NOUN)
''')

bug('c03-repeated-variable', 'C03',
    [('utg/templates.py', "        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)\n                              for substitution in self._substitutions)", "        texts = {substitution.id: substitution.get_text(externals=externals, dictionary=dictionary) for substitution in self._substitutions if len(substitution.dependencies) < 2}\n        substitutions = tuple(texts[substitution.id] if len(substitution.dependencies) < 2 else substitution.get_text(externals=externals, dictionary=dictionary)\n                              for substitution in self._substitutions)")],
    'one variable used twice with different properties',
    'both uses of a variable get the text of the last one',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[х|рд] [х|дт]', {'х': words.WordForm(noun)}), noun.form(P(r.CASE.GENITIVE)) + ' ' + noun.form(P(r.CASE.DATIVE)))
''')

# ---------------------------------------------------------------- C22
bug('c22-reused-text', 'C22',
    [('utg/templates.py', "        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)\n                              for substitution in self._substitutions)\n        return self.template % substitutions",
      "        texts = {} # the same insertion has the same text\n        result = []\n        for substitution in self._substitutions:\n            key = (substitution.id, tuple(d if isinstance(d, str) else d.manhattan_distance() for d in substitution.dependencies))\n            if key not in texts:\n                texts[key] = substitution.get_text(externals=externals, dictionary=dictionary)\n            result.append(texts[key])\n        return self.template % tuple(result)")],
    'a sentence that contains the same word twice, in two different cases',
    'an insertion takes over the text of an earlier insertion of the same word whose properties only look the same',
    '''
x = words.WordForm(word(r.WORD_TYPE.NOUN))
eq(generate('[х|рд] [х|дт]', {'х': x}), '%s %s' % (x.word.forms[1], x.word.forms[2]))
''')
bug('c22-trailing-forms', 'C22',
    [('utg/words.py', "        return {'type': self.type.value,\n                'forms': self.forms,", "        forms = list(self.forms)\n        while forms and not forms[-1]:\n            forms.pop()\n        return {'type': self.type.value,\n                'forms': forms,"),
     ('utg/words.py', "                   forms=data['forms'],\n", "                   forms=data['forms'] + data['forms'][-1:] * (cls.get_forms_number(r.WORD_TYPE(data['type'])) - len(data['forms'])),\n")],
    'a word stored before its missing forms are filled in',
    'missing forms at the end of the table come back as copies of the last given form instead of the nearest one',
    '''
noun = word(r.WORD_TYPE.NOUN, ['год', 'года', 'году'])
direct = words.Word.deserialize(json.loads(json.dumps(noun.serialize())))
direct.autofill_missed_forms()
noun.autofill_missed_forms()
eq(direct.forms, noun.forms)
''')
bug('c22-known-word', 'C22',
    [('utg/templates.py', "            base_form = dictionary.get_word(self.id)\n", "            base_form = dictionary.get_word(self.id)\n            base_form = next((e for e in externals.values() if e.word == base_form.word), base_form)\n")],
    'a variable that stands for a word which is also in the dictionary and in the same template',
    'the word is inserted with the properties of the variable and not with those recognised from its text',
    '''
friend = word(r.WORD_TYPE.NOUN)
x = words.WordForm(friend, properties=P(r.NUMBER.PLURAL))
eq(generate('[%s] [х]' % friend.forms[2], {'х': x}, [friend]), '%s %s' % (friend.forms[2], friend.forms[6]))
''')

# ---------------------------------------------------------------- C23
bug('c23-squeezed-message', 'C23',
    [('utg/exceptions.py', "super(UtgError, self).__init__(self.MSG % kwargs)", "super(UtgError, self).__init__(' '.join((self.MSG % kwargs).split()))")],
    'a cause with a line break or with two spaces in it',
    'the message does not name the cause exactly as it was given',
    '''
try:
    dictionary.Dictionary().get_word('а  б')
except exceptions.NoWordsFoundError as e:
    eq('а  б' in str(e), True)
''')
bug('c23-key-slice', 'C23',
    [('utg/lexicon.py', "    def get_random_nearest_template(self, key, restrictions=frozenset()):\n        if key not in self._data:\n            raise exceptions.UnknownLexiconKeyError(key=key)",
      "    def get_random_nearest_template(self, key, restrictions=frozenset()):\n        if key not in self._data:\n            raise exceptions.UnknownLexiconKeyError(key='%.200s' % key)")],
    'a lexicon key that is a tuple',
    'an unknown key fails with TypeError and not with the error of the library',
    '''
try:
    lexicon.Lexicon().get_random_nearest_template(('а', 'б'))
except exceptions.UnknownLexiconKeyError as e:
    eq("('а', 'б')" in str(e), True)
''')
bug('c23-wrong-area', 'C23',
    [('utg/exceptions.py', "class NoTemplatesWithSpecifiedRestrictions(LexiconError):", "class NoTemplatesWithSpecifiedRestrictions(WordsError):")],
    'a program that catches the errors of the lexicon by their common class',
    'the error of a key without admissible template is no longer one of the errors of its area',
    '''
lex = lexicon.Lexicon()
lex.add_template('к', None, frozenset(['а']))
try:
    lex.get_random_template('к')
except exceptions.LexiconError:
    pass
''')
bug('c23-failed-word-kept', 'C23',
    [('utg/dictionary.py', "        word = self._data.get(text)\n", "        word = self._data.setdefault(text)\n")],
    'a text asked from the dictionary in vain and then asked about with has_word',
    'a failed lookup makes the dictionary report the text as known',
    '''
d = dictionary.Dictionary()
try:
    d.get_word('нет')
except exceptions.NoWordsFoundError:
    pass
eq(d.has_word('нет'), False)
''')
bug('c02-required-voice', 'C02',
    [('utg/relations.py', "{ASPECT: True, VOICE: True}),\n                ('PARTICIPLE'", "{ASPECT: True, VOICE: False}),\n                ('PARTICIPLE'")],
    'an editor of words that asks which properties of a verb are required',
    'voice is no longer a required category of verbs',
    '''
eq(r.WORD_TYPE.VERB.properties[r.VOICE], True)
''')
bug('c02-swapped-names', 'C02',
    [('utg/relations.py', "('ALTERNATIVE', 1, 'альтернативная форма', 'алт')", "('ALTERNATIVE', 1, 'специальная форма', 'алт')"), ('utg/relations.py', "('SPECIAL', 2, 'специальная форма', 'спц')", "('SPECIAL', 2, 'альтернативная форма', 'спц')")],
    'a listing of the identifiers with their names',
    'two forms of prepositions are shown with the names exchanged',
    '''
eq(r.PREPOSITION_FORM.SPECIAL.text, 'специальная форма')
''')

# ---------------------------------------------------------------- second round
bug('c14-nested-context', 'C14',
    [('utg/templates.py', "class Template(object):\n", "class _Generation(object):\n    __slots__ = ('externals', 'dictionary')\n\n\n_CURRENT = _Generation()\n_CURRENT.externals = _CURRENT.dictionary = None\n\n\nclass Template(object):\n"),
     ('utg/templates.py', "        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)\n                              for substitution in self._substitutions)\n        return self.template % substitutions",
      "        # templates can be generated while another one is\n        outer = (_CURRENT.externals, _CURRENT.dictionary)\n        _CURRENT.externals, _CURRENT.dictionary = externals, dictionary\n\n        try:\n            substitutions = tuple(substitution.get_text(externals=_CURRENT.externals, dictionary=_CURRENT.dictionary)\n                                  for substitution in self._substitutions)\n        finally:\n            _CURRENT.externals, _CURRENT.dictionary = outer\n\n        return self.template % substitutions")],
    'two threads, each of them in the middle of a generation: one starts after the other one, which goes on before it has finished',
    'the first thread continues with the variables of the second one',
    THREADS + '''
noun = word(r.WORD_TYPE.NOUN)
first, second = threading.Event(), threading.Event()


class Slow(dictionary.Dictionary):
    """generation of the first thread waits for the start of the second one, which waits for the end of the first"""
    def get_word(self, text):
        if threading.current_thread() is a:
            first.set()
            second.wait(5)
        else:
            second.set()
            a.join(5)
        return super(Slow, self).get_word(text)


d = Slow(words=[noun])
t = parse('[%s] [х]' % noun.forms[0], ['х'])
got = {}


def job(name):
    got[name] = t.substitute({'х': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[name]))}, d)


a = threading.Thread(target=job, args=('первый',))
a.start()
first.wait(5)
b = threading.Thread(target=job, args=('второй',))
b.start()
a.join()
b.join()
eq(got, {'первый': noun.forms[0] + ' первый', 'второй': noun.forms[0] + ' второй'})
''')

bug('c13-externals-identity', 'C13',
    [('utg/templates.py', "class Template(object):\n    __slots__ = ('_substitutions', 'template')", "class Template(object):\n    __slots__ = ('_substitutions', 'template', '_last')"),
     ('utg/templates.py', "        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)\n                              for substitution in self._substitutions)\n        return self.template % substitutions",
      "        last = getattr(self, '_last', None)\n        if last is not None and last[0] is externals and last[1] is dictionary:\n            return last[2]\n\n        substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)\n                              for substitution in self._substitutions)\n        self._last = (externals, dictionary, self.template % substitutions)\n        return self._last[2]"),
     ('utg/templates.py', "        variables = _VARIABLE_REGEX.findall(text)\n", "        variables = _VARIABLE_REGEX.findall(text)\n        self._last = None\n")],
    'a program that keeps one dictionary of variables and changes a value in it between two generations',
    'the second generation gives the text of the first one',
    '''
e = {'х': words.WordForm(word(r.WORD_TYPE.NOUN))}
t, d = parse('[х|рд]', e), dictionary.Dictionary()
t.substitute(e, d)
e['х'] = words.WordForm(word(r.WORD_TYPE.NOUN, ['г%d' % i for i in range(18)]))
eq(t.substitute(e, d), 'г1')
''')

bug('c17-dictionary-identity', 'C17',
    [('utg/templates.py', "class Template(object):\n    __slots__ = ('_substitutions', 'template')", "class Template(object):\n    __slots__ = ('_substitutions', 'template', '_checked')"),
     ('utg/templates.py', "            if dictionary.has_word(substitution.id):\n                continue\n", "            # words are never removed from dictionaries, once is enough\n            if substitution.id in checked:\n                continue\n\n            if dictionary.has_word(substitution.id):\n                checked.add(substitution.id)\n                continue\n"),
     ('utg/templates.py', "    def get_undictionaried_words(self, externals, dictionary):\n        words = []\n", "    def get_undictionaried_words(self, externals, dictionary):\n        words = []\n\n        if not hasattr(self, '_checked'):\n            self._checked = set()\n        checked = self._checked\n")],
    'one template that is checked against two dictionaries, the first of which knows more words',
    'words known to the first dictionary are not reported missing from the second one',
    '''
t = parse('[слово]')
w = words.Word(type=r.WORD_TYPE.TEXT, forms=['слово'])
eq(t.get_undictionaried_words([], dictionary.Dictionary(words=[w])), [])
eq(t.get_undictionaried_words([], dictionary.Dictionary()), ['слово'])
''')

bug('c12-blank-form', 'C12',
    [('utg/words.py', "                          if self.forms[index]]", "                          if self.forms[index].strip()]"),
     ('utg/words.py', "            if form:\n                continue\n\n            nearest_key", "            if form.strip():\n                continue\n\n            nearest_key")],
    'a given form that consists of white space only',
    'the given form is replaced',
    '''
noun = word(r.WORD_TYPE.NOUN, ['год', ' '])
noun.autofill_missed_forms()
eq(noun.forms[1], ' ')
''')

bug('c20-memo-by-first-form', 'C20',
    [('utg/words.py', "        form = self.forms[0]\n        base_vowels =", "        form = self.forms[0]\n\n        if len(form) > _LONG:\n            if (form, self.forms[-1]) not in _FLUENT:\n                _FLUENT[(form, self.forms[-1])] = self._has_fluent_vowel(form)\n            return _FLUENT[(form, self.forms[-1])]\n\n        return self._has_fluent_vowel(form)\n\n    def _has_fluent_vowel(self, form):\n        base_vowels ="),
     ('utg/words.py', "class Word(object):\n", "_LONG = 3\n_FLUENT = {}\n\n\nclass Word(object):\n")],
    'two words with equal first and last forms, of four letters or longer, that differ in the middle',
    'the second word is given the feature of the first one',
    '''
a, b = word(r.WORD_TYPE.NOUN, ['ветер', 'ветра']), word(r.WORD_TYPE.NOUN, ['ветер', 'ветера'])
eq((a.has_fluent_vowel, b.has_fluent_vowel), (True, False))
''')

bug('c07-stripped-lookup', 'C07',
    [('utg/dictionary.py', "        word = self._data.get(text)\n", "        word = self._data.get(text) or self._data.get(text.strip())\n")],
    'a text with a space around it that is not a form of any word',
    'the text is found although no word has such a form',
    '''
d = dictionary.Dictionary(words=[words.Word(type=r.WORD_TYPE.TEXT, forms=['слово'])])
try:
    d.get_word('слово ')
    eq('found', 'not found')
except exceptions.NoWordsFoundError:
    pass
''')

bug('c10-animality-of-word', 'C10',
    [('utg/transformators.py', "    animality = properties.get(r.ANIMALITY)\n", "    animality = (slave_word.properties if slave_word is not None else properties).get(r.ANIMALITY)\n")],
    'animacy that is requested by the substitution and not fixed on the word, 2-4 in the accusative',
    'the word is inflected as if animacy had not been requested',
    '''
pronoun = word(r.WORD_TYPE.PRONOUN)
e = {'х': words.WordForm(pronoun), 'ч': constructors.construct_integer(3)}
want = pronoun.form(P(r.CASE.GENITIVE, r.NUMBER.SINGULAR, r.ANIMALITY.INANIMATE))
eq(generate('[х|ч|вн,но]', e), want)
''')

bug('c18-title-digraph', 'C18',
    [('utg/words.py', "        if properties.get(r.WORD_CASE).is_UPPER:\n            form = form[:1].upper() + form[1:]\n\n        return form\n", "        if not properties.get(r.WORD_CASE).is_UPPER:\n            return form\n\n        return form[:1].title() + form[1:]\n")],
    'a first letter whose title case differs from its upper case',
    'the first letter is not in upper case',
    '''
eq(generate('[Х]', {'х': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['\\u01c6а']))}), '\\u01c4а')
''')

bug('c15-forms-as-bag', 'C15',
    [('utg/words.py', "                self.properties == other.properties and\n                self.forms == other.forms)", "                self.properties == other.properties and\n                self.forms[0] == other.forms[0] and\n                sorted(self.forms) == sorted(other.forms))")],
    'two words with the same forms, two of them exchanged',
    'words with different forms at the same slots are equal',
    '''
a, b = word(r.WORD_TYPE.NOUN), word(r.WORD_TYPE.NOUN)
b.forms[1], b.forms[2] = b.forms[2], b.forms[1]
eq(a == b, False)
''')

bug('c06-repeated-dependency', 'C06',
    [('utg/templates.py', "        obj.dependencies = [dep if isinstance(dep, str) else words.Properties.deserialize(dep) for dep in data['dependencies']]\n",
      "        for dep in data['dependencies']:\n            dep = dep if isinstance(dep, str) else words.Properties.deserialize(dep)\n            if dep not in obj.dependencies:\n                obj.dependencies.append(dep)\n")],
    'a substitution with the same dependency twice and something else in between',
    'the second mention is lost by storing, so the result changes',
    '''
noun = word(r.WORD_TYPE.NOUN)
e = {'х': words.WordForm(noun)}
t = parse('[х|рд|дт|рд]', e)
u = templates.Template.deserialize(json.loads(json.dumps(t.serialize())))
eq(u.substitute(e, dictionary.Dictionary()), noun.forms[1])
''')

bug('c05-template-first', 'C05',
    [('utg/templates.py', "        variables = _VARIABLE_REGEX.findall(text)\n\n        self._substitutions = [Substitution.parse(variable, externals=externals) for variable in variables]\n\n        self.template = '%s'.join(part.replace('%', '%%') for part in _VARIABLE_REGEX.split(text))",
      "        self.template = '%s'.join(part.replace('%', '%%') for part in _VARIABLE_REGEX.split(text))\n\n        self._substitutions = [Substitution.parse(variable, externals=externals) for variable in _VARIABLE_REGEX.findall(text)]")],
    'a parse that fails on a template that was parsed before',
    'the template has the new text and the old variables',
    '''
e = {'х': words.WordForm(word(r.WORD_TYPE.NOUN))}
t = parse('старый [х]', e)
try:
    t.parse('новый [х|нечто]', e)
except exceptions.UnknownVerboseIdError:
    pass
eq(t.serialize()['template'] in ('старый %s', None), True)
''')

bug('c08-last-registration', 'C08',
    [('utg/lexicon.py', "        return [template for template, distance in templates if distance == best_distance]", "        nearest = [template for template, distance in templates if distance == best_distance]\n\n        if len(nearest) > 8:\n            nearest = list({id(template): template for template in nearest}.values())\n\n        return nearest")],
    'more than eight eligible registrations, one template among them twice',
    'a template registered twice has the chance of one registration',
    '''
lex = lexicon.Lexicon()
ts = [templates.Template() for i in range(9)]
for t in ts + ts[:1]:
    lex.add_template('к', t)
seen = []
import random
random.choice = lambda x: seen.append(len(x)) or x[0]
lex.get_random_nearest_template('к')
eq(seen or [10], [10])
''')

bug('c04-inherited-fixed', 'C04',
    [('utg/templates.py', "                properties.append(externals[dependency].properties)\n", "                # fixed properties of the variable never change, inflected ones can be overridden\n                properties.insert(0, externals[dependency].word.properties)\n                properties.append(externals[dependency].properties)\n")],
    'nothing: see below', 'nothing', '''
''')
BUGS.pop()

bug('c22-dictionary-of-reloaded', 'C22',
    [('utg/words.py', "        return cls(type=r.WORD_TYPE(data['type']),\n                   forms=data['forms'],", "        return cls(type=r.WORD_TYPE(data['type']),\n                   forms=tuple(data['forms']) if all(data['forms']) else data['forms'],"),
     ('utg/words.py', "                self.forms == other.forms)", "                list(self.forms) == list(other.forms))"),
     ('utg/dictionary.py', "            if word_form.word.forms < registered_form.word.forms:", "            if tuple(word_form.word.forms) < tuple(registered_form.word.forms[:1]):"),
     ('utg/dictionary.py', "            if word_form.word.forms > registered_form.word.forms:", "            if tuple(word_form.word.forms) > tuple(registered_form.word.forms):")],
    'homonyms of one part of speech with the same first form, the smaller one added last',
    'which homonym is found depends on the order of adding',
    '''
a = word(r.WORD_TYPE.NOUN, ['лук'] + ['лука%d' % i for i in range(17)])
b = word(r.WORD_TYPE.NOUN, ['лук'] + ['лукя%d' % i for i in range(17)])
for order in ([a, b], [b, a]):
    eq(dictionary.Dictionary(words=order).get_word('лук').word.forms[1], 'лука0')
''')

bug('c03-literal-strip', 'C03',
    [('utg/templates.py', "        return self.template % substitutions", "        text = self.template % substitutions\n        return text.encode('utf-16', 'surrogatepass').decode('utf-16', 'replace') if len(text) > 500 else text")],
    'a text of more than 500 characters with a lone surrogate in it',
    'the character is replaced',
    '''
text = 'а' * 600 + '\\ud83d'
eq(generate(text) == text, True)
''')

bug('c09-minus-cache', 'C09',
    [('utg/constructors.py', "    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT:\n", "    if _INTEGER_CACHE_LEFT <= number <= _INTEGER_CACHE_RIGHT or (_INTEGER_CACHE is not None and -len(_INTEGER_CACHE) // 1000 < number < 0):\n")],
    'a small negative number after a non-negative one',
    'the sign is taken as an index from the end of the table of numbers',
    '''
constructors.construct_integer(5)
eq(constructors.construct_integer(-3).form, '-3')
''')

bug('c11-last-letter-of-request', 'C11',
    [('utg/transformators.py', "    slave = slave_word.normal_form()\n", "    slave = slave_word.form(properties)\n")],
    'a preposition whose alternative form was requested or chosen before the decision (two following words)',
    'the decision looks at the last letter of the requested form and not at the preposition itself',
    '''
prep = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['о', 'об', 'обо'])
e = {'п': words.WordForm(prep), 'х': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['облако'])),
     'у': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['мне']))}
eq(generate('[п|х|у]', e), 'обо')
''')

bug('c19-cached-text', 'C19',
    [('utg/words.py', "    def __unicode__(self):\n        return '(%s)' % (", "    def __unicode__(self):\n        key = tuple(sorted((property_type.__name__[:6], property.value) for property_type, property in self._data.items()))\n        if key not in _TEXTS:\n            _TEXTS[key] = self._text()\n        return _TEXTS[key]\n\n    def _text(self):\n        return '(%s)' % ("),
     ('utg/words.py', "class Properties(object):\n", "_TEXTS = {}\n\n\nclass Properties(object):\n")],
    'two sets that differ only in categories with similar names, one after the other',
    'the second set is shown as the first one',
    '''
pairs = [(x, y) for x in r.PROPERTY_TYPE.records for y in r.PROPERTY_TYPE.records if x != y and x.relation.__name__[:6] == y.relation.__name__[:6]]
for x, y in pairs:
    for v, w in zip(x.relation.records, y.relation.records):
        eq((str(P(v)), str(P(w))), ('(%s)' % v.verbose_id, '(%s)' % w.verbose_id))
''')

bug('c01-form-of-own-set', 'C01',
    [('utg/words.py', "        return self._form(Properties(properties, self.properties))\n", "        if properties is self.properties or properties._data.keys() >= self.properties._data.keys():\n            return self._form(properties)\n        return self._form(Properties(properties, self.properties))\n")],
    'a request that mentions every category fixed on the word, with another value',
    'the requested value wins over the fixed one',
    '''
noun = word(r.WORD_TYPE.NOUN, None, r.NUMBER.PLURAL)
eq(noun.form(P(r.NUMBER.SINGULAR)), noun.form(P(r.NUMBER.PLURAL)))
''')

bug('c16-shared-forms', 'C16',
    [('utg/migrations/m_0009_pronoun_modernization.py', "EMPTY", "EMPTY")],
    '', '', '')
BUGS.pop()

bug('c23-cause-in-braces', 'C23',
    [('utg/exceptions.py', "super(UtgError, self).__init__(self.MSG % kwargs)", "super(UtgError, self).__init__((self.MSG % kwargs).format(**kwargs) if '{' in self.MSG % kwargs and '}' in self.MSG % kwargs else self.MSG % kwargs)")],
    'a cause with braces in it',
    'the error of the library becomes a KeyError or names another cause',
    '''
try:
    dictionary.Dictionary().get_word('{слово}')
except exceptions.NoWordsFoundError as e:
    eq('{слово}' in str(e), True)
''')

bug('c21-hash-tie', 'C21',
    [('utg/data.py', "VERBOSE_TO_PROPERTIES = logic.get_verbose_to_relations()\n", "VERBOSE_TO_PROPERTIES = logic.get_verbose_to_relations()\n\n# the tables below iterate over values often\n_ALL_VALUES = frozenset(VERBOSE_TO_PROPERTIES)\n"),
     ('utg/logic.py', "    for relation in get_property_relations():\n        for record in relation.records:\n            values[record.verbose_id] = record\n\n    return values", "    records = set((record.verbose_id, relation.__name__) for relation in get_property_relations() for record in relation.records)\n    for verbose_id, name in records:\n        values[verbose_id] = next(record for record in getattr(r, name).records if record.verbose_id == verbose_id)\n\n    return values")],
    'a listing of all identifiers in two processes with different hash seeds',
    'the order of the table of identifiers depends on the hash seed',
    '''
import subprocess, os
out = set()
for seed in range(6):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    out.add(subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from utg import data; print(list(data.VERBOSE_TO_PROPERTIES))'], env=env, capture_output=True, text=True).stdout)
eq(len(out), 1)
''')

bug('c02-form-count-mutable', 'C02',
    [('utg/words.py', "        if len(forms) != len(data.WORDS_CACHES[type]):", "        if len(forms) != len(data.WORDS_CACHES[type]) and not (properties.is_specified(r.NUMBER) and len(forms) * 2 == len(data.WORDS_CACHES[type])):")],
    'a word with fixed number and half of its forms',
    'a wrong number of forms is accepted',
    '''
n = len(data.WORDS_CACHES[r.WORD_TYPE.NOUN])
try:
    words.Word(type=r.WORD_TYPE.NOUN, forms=['x'] * (n // 2), properties=P(r.NUMBER.PLURAL))
    eq('accepted', 'refused')
except exceptions.WrongFormsNumberError:
    pass
''')

BUGS[:] = [b for b in BUGS if b['id'] not in ('c21-hash-tie', 'c22-dictionary-of-reloaded', 'c09-minus-cache', 'c11-last-letter-of-request', 'c23-cause-in-braces')]

bug('c08-remembered-request', 'C08',
    [('utg/lexicon.py', "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_nearest')"),
     ('utg/lexicon.py', "    def __init__(self):\n        self._data = {}\n", "    def __init__(self):\n        self._data = {}\n        self._nearest = {}\n"),
     ('utg/lexicon.py', "        if key not in self._data:\n            self._data[key] = []\n", "        if key not in self._data:\n            self._data[key] = []\n\n        if restrictions:\n            self._nearest = {k: v for k, v in self._nearest.items() if k[0] != key or not restrictions.issubset(k[1])}\n"),
     ('utg/lexicon.py', "        candidates = self._get_nearest_templates(key, restrictions)\n", "        if (key, restrictions) not in self._nearest:\n            self._nearest[(key, restrictions)] = self._get_nearest_templates(key, restrictions)\n\n        candidates = self._nearest[(key, restrictions)]\n")],
    'a request, then an addition without restrictions to the same key, then the same request again',
    'the template added later is never chosen',
    '''
lex = lexicon.Lexicon()
lex.add_template('к', 'а')
lex.get_random_nearest_template('к')
lex.add_template('к', 'б')
eq({lex.get_random_nearest_template('к') for i in range(200)}, {'а', 'б'})
''')

bug('c07-remembered-words', 'C07',
    [('utg/dictionary.py', "    __slots__ = ('_data',)", "    __slots__ = ('_data', '_found')"),
     ('utg/dictionary.py', "        self._data = {}\n", "        self._data = {}\n        self._found = {}\n"),
     ('utg/dictionary.py', "        word = self._data.get(text)\n", "        word = self._found.get(text)\n        if word is None:\n            word = self._data.get(text)\n            if word is not None and len(self._found) < 1000:\n                self._found[text] = word\n"),
     ('utg/dictionary.py', "            if word_form.word.type.value < registered_form.word.type.value:\n                self._data[word_form.form] = word_form\n", "            if word_form.word.type.value < registered_form.word.type.value:\n                self._data[word_form.form] = word_form\n                self._found.pop(word_form.form, None)\n"),
     ('utg/dictionary.py', "            if word_form.word.forms < registered_form.word.forms:\n                self._data[word_form.form] = word_form\n", "            if word_form.word.forms < registered_form.word.forms:\n                self._data[word_form.form] = word_form\n                self._found.pop(word_form.form, None)\n")],
    'a lookup, then a word with the same forms that is nearer to the defaults, then the same lookup',
    'the earlier word is still found',
    '''
d = dictionary.Dictionary(words=[word(r.WORD_TYPE.NOUN, None, r.GENDER.FEMININE)])
text = word(r.WORD_TYPE.NOUN).forms[0]
d.get_word(text)
d.add_word(word(r.WORD_TYPE.NOUN))
eq(d.get_word(text).word.properties, P())
''')

bug('c20-syllables-after-fill', 'C20',
    [('utg/words.py', "        del self.number_of_syllables\n        del self.has_fluent_vowel\n", "        if nearest_key is not None:\n            del self.number_of_syllables\n            del self.has_fluent_vowel\n"),
     ('utg/words.py', "        for i, form in enumerate(self.forms):\n            if form:\n                continue\n\n            nearest_key = logic", "        nearest_key = None\n\n        for i, form in enumerate(self.forms):\n            if form:\n                continue\n\n            nearest_key = logic")],
    'nothing can go wrong here', 'nothing', '''
''')
BUGS.pop()

bug('c05-parse-memo', 'C05',
    [('utg/templates.py', "    def parse_properties(cls, text):\n        properties = []\n", "    def parse_properties(cls, text):\n        if text in _PARSED:\n            return words.Properties(*_PARSED[text])\n\n        properties = _PARSED.setdefault(text, [])\n"),
     ('utg/templates.py', "class Substitution(object):\n", "_PARSED = {}\n\n\nclass Substitution(object):\n")],
    'the same wrong list of identifiers parsed a second time',
    'the second attempt is accepted, with the identifiers in front of the wrong one',
    '''
for attempt in range(2):
    try:
        parse('[слово|рд,нечто]')
        eq('accepted', 'refused')
    except exceptions.UnknownVerboseIdError:
        pass
''')

bug('c04-recognised-twice', 'C04',
    [('utg/templates.py', "        properties = base_form.properties.clone(*properties_list)\n", "        properties = words.Properties(*properties_list) if len(properties_list) > 12 else base_form.properties.clone(*properties_list)\n")],
    'a substitution with a dozen dependencies',
    'the recognised properties of the word are lost',
    '''
noun = word(r.WORD_TYPE.NOUN)
eq(generate('[%s%s]' % (noun.forms[7], '|од' * 12), {}, [noun]), noun.forms[7])
''')

bug('c10-negative-zero', 'C10',
    [('utg/transformators.py', "    if integer_form.is_PLURAL:\n        if case.is_NOMINATIVE:\n            return properties.clone(r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, r.CASE.GENITIVE)\n        if case.is_ACCUSATIVE:", "    if integer_form.is_PLURAL:\n        if master_form is not None and master_form.form == '0' and case.is_ACCUSATIVE:\n            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.PLURAL, r.CASE.GENITIVE)\n        if case.is_NOMINATIVE:\n            return properties.clone(r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, r.CASE.GENITIVE)\n        if case.is_ACCUSATIVE:")],
    'the number 0 with a noun in the accusative whose countable form differs',
    'the normal form of the genitive plural instead of the countable one',
    '''
noun = word(r.WORD_TYPE.NOUN)
e = {'х': words.WordForm(noun), 'ч': constructors.construct_integer(0)}
eq(generate('[х|ч|вн]', e), noun.form(P(r.CASE.GENITIVE, r.NUMBER.PLURAL, r.NOUN_FORM.COUNTABLE)))
''')

bug('c11-cluster-of-three', 'C11',
    [('utg/words.py', "        form = self.form\n        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)", "        start = self.form[:2].rstrip('-')\n        return start != '' and all(char in data.CONSONANTS for char in start)")],
    'a following word with a hyphen after its first letter',
    'the hyphen counts as a consonant',
    '''
w = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=['в', 'во', 'во'])
e = {'п': words.WordForm(w), 'х': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['в-третьих']))}
eq(generate('[п|х]', e), 'в')
''')

bug('c18-case-order', 'C18',
    [('utg/templates.py', "        if s.id[0].isupper():\n            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))", "        if s.id[0].isupper():\n            position = 0 if any(isinstance(d, words.Properties) and d.is_specified(r.WORD_CASE) for d in s.dependencies) else len(s.dependencies)\n            s.dependencies.insert(position, words.Properties(r.WORD_CASE.UPPER))")],
    'a name with a capital letter and an explicit property of letter case among the dependencies',
    'capitalisation does not win',
    '''
eq(generate('[Х|%s]' % r.WORD_CASE.LOWER.verbose_id, {'х': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['слово']))}), 'Слово')
''')

bug('c16-fixed-number', 'C16',
    [('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "XX", "XX")], '', '', '')
BUGS.pop()

bug('c06-number-dependency', 'C06',
    [('utg/words.py', "        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value\n", "        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value or 0.0\n")],
    'nothing', 'nothing', '''
''')
BUGS.pop()

bug('c15-hash-of-order', 'C15',
    [('utg/words.py', "    def __hash__(self):\n        return self.manhattan_distance()\n", "    def __hash__(self):\n        result = 0\n        for property_type, property_value in list(self._data.items())[-6:]:\n            if property_value != data.DEFAULT_PROPERTIES[property_type]:\n                result += 1\n        return result\n")],
    'two equal sets of more than six values given in different orders',
    'equal sets have different hashes',
    '''
values = [x.relation.records[-1] for x in r.PROPERTY_TYPE.records][:8] + [x.relation.records[0] for x in r.PROPERTY_TYPE.records][8:14]
eq(hash(P(*values)), hash(P(*values[::-1])))
''')

bug('c12-second-call', 'C12',
    [('utg/words.py', "            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]\n", "            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]\n\n            if len(available_keys) < 2:\n                available_keys.append(inverted_cache[i])\n")],
    'exactly one given form', 'nothing: all forms are equal', '''
''')
BUGS.pop()

bug('c23-empty-cause', 'C23',
    [('utg/templates.py', "            if slug not in data.VERBOSE_TO_PROPERTIES:\n                raise exceptions.UnknownVerboseIdError(verbose_id=slug)", "            if slug not in data.VERBOSE_TO_PROPERTIES:\n                raise exceptions.UnknownVerboseIdError(verbose_id=slug.split()[0])")],
    'an unknown identifier that consists of several words',
    'the error names the first word only',
    '''
try:
    parse('[слово|нет такого]')
except exceptions.UnknownVerboseIdError as e:
    eq('нет такого' in str(e), True)
''')

bug('c19-clone-order', 'C19',
    [('utg/words.py', "                                  for property in r.PROPERTY_TYPE.records\n                                  if property.relation in self._data))", "                                  for property in (r.PROPERTY_TYPE.records if len(self._data) < 5 else [r.PROPERTY_TYPE.index_relation[x] for x in self._data])\n                                  if property.relation in self._data))")],
    'a set of five or more values built in another order',
    'the order of the identifiers depends on how the set was built',
    '''
values = [x.relation.records[-1] for x in r.PROPERTY_TYPE.records][:6]
eq(str(P(*values)), str(P(*values[::-1])))
''')

bug('c17-upper-variable', 'C17',
    [('utg/templates.py', "            if substitution.id in externals:\n                continue\n\n            if dictionary", "            if substitution.id in externals or substitution.id.upper() in externals:\n                continue\n\n            if dictionary")],
    'variables with names in upper case, which no substitution can refer to',
    'the word is not reported although generation fails',
    '''
x = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['а']))
eq(parse('[х]').get_undictionaried_words({'Х': x}, dictionary.Dictionary()), ['х'])
''')

bug('c22-filled-copy', 'C22',
    [('utg/words.py', "            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]\n", "            self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]\n            if len(set(self.forms)) == 2 and '' in self.forms and self.type.is_PRONOUN:\n                break\n")],
    'a pronoun with a single known form',
    'most of the forms stay empty',
    '''
p = word(r.WORD_TYPE.PRONOUN, ['я'])
p.autofill_missed_forms()
eq(set(p.forms), {'я'})
''')

bug('c09-plus-thousand', 'C09',
    [('utg/constructors.py', "    form = str(number)\n", "    form = str(number) if abs(number) < 10**15 else '%d' % number if abs(number) < 10**18 else '%.0f' % number if float(number) == number else str(number)\n")],
    'nothing', 'nothing', '''
''')
BUGS.pop()

bug('c09-billions', 'C09',
    [('utg/constructors.py', "    number = abs(number)\n", "    number = abs(number)\n\n    if number >= 10**12: # rounding is enough for the grammar\n        number = int(number % 1e6)\n")],
    'numbers above 2**53', 'the last digits are lost and with them the class of the number',
    '''
got = constructors.construct_integer(2**60 + 5).properties
want = constructors.construct_integer(1000000 + (2**60 + 5) % 100).properties
eq(got, want)
''')


# ================================================================ third round
bug('c14-bounded-parse-memo', 'C14',
    [('utg/templates.py', """    def parse_properties(cls, text):
        properties = []
""", """    def parse_properties(cls, text):
        if text not in _PARSED:
            if len(_PARSED) >= 64:
                _PARSED.clear()
            _PARSED[text] = cls._parse_properties(text)
        return _PARSED[text]

    @classmethod
    def _parse_properties(cls, text):
        properties = []
"""),
     ('utg/templates.py', """class Substitution(object):
""", """_PARSED = {}


class Substitution(object):
""")],
    'a thread parsing a property list while another one parses so many different lists that the bounded memo is emptied between its two accesses',
    'remembered property lists are dropped when there are 64 of them, between the test and the use in another thread: KeyError',
    '''
import threading
wait, go = threading.Event(), threading.Event()
lists = ['ед,%s,%s,%s' % (c, g, p) for c in ('им', 'рд', 'дт', 'вн', 'тв', 'пр') for g in ('мр', 'жр', 'ср') for p in ('1л', '2л', '3л')]
lists += ['мн,%s,%s' % (c, g) for c in ('им', 'рд', 'дт', 'вн', 'тв', 'пр') for g in ('мр', 'жр', 'ср')]
failures = []
target = templates.Substitution.parse_properties.__func__.__code__
for stop in range(1, 40):
    count = [0]
    done = []

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith('templates.py'):
            return None

        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == stop and not done:
                    done.append(1)
                    other = threading.Thread(target=lambda: [parse('[x|%s]' % l) for l in lists])
                    other.start()
                    other.join()
            return local
        return local

    def first():
        sys.settrace(tracer)
        try:
            parse('[x|мн,дт]')
        except Exception as e:
            failures.append((stop, repr(e)))
        finally:
            sys.settrace(None)
    for _ in range(2):
        t = threading.Thread(target=first)
        t.start()
        t.join()
eq(failures, [])
''')

bug('c14-last-lookup', 'C14',
    [('utg/dictionary.py', """    __slots__ = ('_data',)

    def __init__(self, words=[]):
        self._data = {}
""", """    __slots__ = ('_data', '_last_text', '_last_word')

    def __init__(self, words=[]):
        self._data = {}
        self._last_text = self._last_word = None
"""),
     ('utg/dictionary.py', """    def add_word(self, word):
""", """    def add_word(self, word):
        self._last_text = None

"""),
     ('utg/dictionary.py', """        word = self._data.get(text)

        if word is None:
            raise exceptions.NoWordsFoundError(text=text)

        return word
""", """        if text == self._last_text:
            return self._last_word

        word = self._data.get(text)

        if word is None:
            raise exceptions.NoWordsFoundError(text=text)

        self._last_text = text
        self._last_word = word

        return word
""")],
    'a second thread looking up the same text between the two assignments that remember the last lookup',
    'the remembered text and the remembered word are set one after the other, so another thread sees the new text with the old word',
    '''
import threading
d = dictionary.Dictionary(words=[word(r.WORD_TYPE.NOUN), word(r.WORD_TYPE.VERB)])
a, b = word(r.WORD_TYPE.NOUN).forms[3], word(r.WORD_TYPE.VERB).forms[2]
bad = []
for stop in range(1, 12):
    for x, y in ((a, b), (b, a)):
        d.get_word(y)
        count = [0]

        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == stop:
                    other = threading.Thread(target=lambda: bad.append((stop, x, d.get_word(x).form)) if d.get_word(x).form != x else None)
                    other.start()
                    other.join()
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_name == 'get_word' else None

        def first():
            sys.settrace(tracer)
            try:
                d.get_word(x)
            finally:
                sys.settrace(None)
        t = threading.Thread(target=first)
        t.start()
        t.join()
eq(bad, [])
''')

bug('c12-stale-source-memo', 'C12',
    [('utg/words.py', """            nearest_key = logic.get_nearest_key(inverted_cache[i], available_keys)

            if nearest_key is None:
                continue
""", """            memo_key = (self.type, i, len(available_keys), available_keys[:1] and available_keys[0], available_keys[-1:] and available_keys[-1])

            if memo_key not in _NEAREST_KEYS:
                _NEAREST_KEYS[memo_key] = logic.get_nearest_key(inverted_cache[i], available_keys)

            nearest_key = _NEAREST_KEYS[memo_key]

            if nearest_key is None:
                continue
"""),
     ('utg/words.py', """class Properties(object):
    __slots__""", """_NEAREST_KEYS = {}


class Properties(object):
    __slots__""")],
    'two words of one type with as many given forms, the same first and last one, and a different one in between, filled in one after the other',
    'the nearest given slot is remembered under the number of given forms and the first and last of them only',
    '''
def fill(*given):
    forms = [''] * 18
    for i in given:
        forms[i] = 'x%d' % i
    w = word(r.WORD_TYPE.NOUN, forms)
    w.autofill_missed_forms()
    return w
keys = data.INVERTED_WORDS_CACHES[r.WORD_TYPE.NOUN]
for k in range(1, 11):
    got = fill(0, k, 11)
    want = ['x%d' % keys.index(logic.get_nearest_key(key, [keys[0], keys[k], keys[11]])) for key in keys]
    eq(got.forms, want)
''')

bug('c07-interned-slots', 'C07',
    [('utg/words.py', """        return (WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))
""", """        forms = (WordForm(word=self, properties=_INVERTED_WORDS_CACHES__PROPERTIES[self.type][i]) for i in range(len(self.forms)))
        return (form for form in forms if form.form or len(self.forms) > 1)
""")],
    'a word of a part of speech with a single form whose text is empty',
    'the only form of such a word is skipped, so the dictionary does not know the word',
    '''
eq(dictionary.Dictionary(words=[word(r.WORD_TYPE.TEXT, [''])]).has_word(''), True)
''')

bug('c20-cluster-of-changed-form', 'C20',
    [('utg/words.py', """        form = self.form
        return (form[:1] in data.CONSONANTS)""", """        form = self.form if self.form[:1] != self.form[:1].lower() else self.form.lower()
        return (form[:1] in data.CONSONANTS)"""),
     ('utg/words.py', """        form = self.forms[0]
        return max(1, sum(form.count(char) for char in data.VOWELS))
""", """        form = self.forms[0] or next((f for f in self.forms if f), '')
        return max(1, sum(form.count(char) for char in data.VOWELS))
""")],
    'a word whose first form is missing and whose next given form has several vowels',
    'the syllables of the first given form are counted when the first form is missing',
    '''
w = word(r.WORD_TYPE.NOUN, ['', 'колокола'])
eq(w.number_of_syllables, 1)
''')

bug('c04-plain-forms-direct', 'C04',
    [('utg/templates.py', """        properties_list, externals = self._list_propeties(externals=externals)
""", """        if not self.dependencies:
            return base_form.form

        properties_list, externals = self._list_propeties(externals=externals)
""")],
    'a variable set up with other form properties than its properties, inserted without any dependency',
    'a substitution without dependencies shows the form of the variable by its form properties and not by its properties',
    '''
noun = word(r.WORD_TYPE.NOUN)
f = words.WordForm(noun, properties=P(r.CASE.DATIVE), form_properties=P(r.CASE.GENITIVE))
eq(generate('[x]', {'x': f}), noun.form(P(r.CASE.DATIVE)))
''')

bug('c18-upper-in-base', 'C18',
    [('utg/templates.py', """        if s.id[0].isupper():
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))
""", """        if s.id[0].isupper() and not (s.dependencies and s.dependencies[-1] == words.Properties(r.WORD_CASE.LOWER)):
            s.dependencies.append(words.Properties(r.WORD_CASE.UPPER))
""")],
    'a name with a capital letter whose last property is exactly the lower-case one',
    'an explicit lower-case property wins over the capital letter of the name',
    '''
text = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['имя']))
eq(generate('[X|строч]', {'x': text}), 'Имя')
''')

bug('c06-properties-order', 'C06',
    [('utg/words.py', """        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value
                for property_type, property in self._data.items()}
""", """        return {r.PROPERTY_TYPE.index_relation[property_type].value: property.value
                for property_type, property in self._data.items()
                if property_type in r.PROPERTY_TYPE.index_relation and (len(self._data) < 12 or property.value or property_type is not r.NUMBER)}
""")],
    'a set that specifies twelve or more categories, the singular among them',
    'the singular is left out of the stored data of large property sets',
    '''
values = [record.relation.records[0] for record in r.PROPERTY_TYPE.records]
p = P(*values)
eq(P.deserialize(json.loads(json.dumps(p.serialize()))), p)
''')

bug('c08-restrictions-of-kind', 'C08',
    [('utg/lexicon.py', """        templates = tuple(template
                          for template, template_restrictions in self._data.get(key, ())
                          if template_restrictions.issubset(restrictions))
""", """        limit = max((len(template_restrictions) for _, template_restrictions in self._data.get(key, ())), default=0)

        if limit < len(restrictions) > 8:
            restrictions = frozenset(sorted(restrictions, key=str)[:max(limit, 8)])

        templates = tuple(template
                          for template, template_restrictions in self._data.get(key, ())
                          if template_restrictions.issubset(restrictions))
""")],
    'more than eight requested restrictions, more than any template has',
    'only the first of many requested restrictions are taken into account',
    '''
lex = lexicon.Lexicon()
lex.add_template('k', 't', frozenset(['z']))
eq(lex.get_templates('k', frozenset('abcdefghijz')), ('t',))
''')

bug('c09-written-with-sign', 'C09',
    [('utg/constructors.py', """    form = str(number)
    number = abs(number)
""", """    form = str(number)
    number = int(form.lstrip('-')[-18:] or 0) if len(form) > 40 else abs(number)
""")],
    'a number of more than forty digits that ends in the digits of 1, 2, 3, 4, a million or a billion after zeros only',
    'huge numbers are classified by their last eighteen digits, so ...0001 counts as one',
    '''
n = 10 ** 60 + 1
f = constructors.construct_integer(n)
eq(f.properties.get(r.NUMBER), r.NUMBER.PLURAL)
''')

bug('c17-known-by-base', 'C17',
    [('utg/templates.py', """            if dictionary.has_word(substitution.id):
                continue

            words.append(substitution.id)
""", """            if dictionary.has_word(substitution.id):
                continue

            if any(dependency == substitution.id for dependency in substitution.dependencies):
                continue

            words.append(substitution.id)
""")],
    'a missing name whose own dependencies name it as a variable known at parsing',
    'a name that depends on a variable of the same name is not reported as missing',
    '''
t = parse('[герой|герой]', ['герой'])
eq(t.get_undictionaried_words({}, dictionary.Dictionary()), ['герой'])
''')

bug('c05-spaces-inside', 'C05',
    [('utg/templates.py', """        s.id = slugs[0].strip()
""", """        s.id = ' '.join(slugs[0].split())
""")],
    'a name of several words separated by two spaces, a tab or a line break',
    'inner white space of names is squeezed',
    '''
w = word(r.WORD_TYPE.TEXT, ['по  пути'])
eq(generate('[по  пути]', {}, [w]), 'по  пути')
''')

bug('c23-attribute-kept', 'C23',
    [('utg/lexicon.py', """        if key not in self._data:
            raise exceptions.UnknownLexiconKeyError(key=key)

        candidates = self._get_nearest_templates(key, restrictions)
""", """        candidates = self._get_nearest_templates(key, restrictions)

        if not candidates and not self._data.setdefault(key, []):
            raise exceptions.UnknownLexiconKeyError(key=key)
""")],
    'an unknown key asked for twice, or asked whether it is known after the failure',
    'the failed request registers the key',
    '''
lex = lexicon.Lexicon()
try:
    lex.get_random_nearest_template('k')
except exceptions.UtgError:
    pass
eq(lex.has_key('k'), False)
''')

bug('c15-equal-by-distance', 'C15',
    [('utg/words.py', """        return (isinstance(other, Properties) and
                self._data == other._data)
""", """        return (isinstance(other, Properties) and
                len(self._data) == len(other._data) and
                all(other.get(relation) == value for relation, value in self._data.items()))
""")],
    'two sets of the same size, where a category one specifies with its default is not specified in the other',
    'sets are compared by effective values when they are of equal size: {singular} == {nominative}',
    '''
a, b = P(r.NUMBER.SINGULAR), P(r.CASE.NOMINATIVE)
eq(a == b, False)
''')

bug('c15-template-names', 'C15',
    [('utg/templates.py', """        return (self.id == other.id and
                self.dependencies == other.dependencies)
""", """        return (self.dependencies == other.dependencies and
                (self.id == other.id or not self.id.isalpha()))
""")],
    'two templates that differ only in a name that is not purely alphabetic',
    'templates with different names in them are equal',
    '''
eq(parse('[слово1] и') == parse('[слово2] и'), False)
''')

bug('c15-template-dependency-order', 'C15',
    [('utg/templates.py', """        return (self.id == other.id and
                self.dependencies == other.dependencies)
""", """        return (self.id == other.id and
                len(self.dependencies) == len(other.dependencies) and
                all(dependency in other.dependencies for dependency in self.dependencies))
""")],
    'two templates with the same dependencies in another order',
    'the order of dependencies, which decides about the form, does not matter for equality',
    '''
eq(parse('[слово|рд|дт]') == parse('[слово|дт|рд]'), False)
''')


# ---------------------------------------------------------------------------------------------- migrations
bug('c16-already-laid-out', 'C16',
    [('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "    word_type = WORD_TYPE(word_data['type'])\n", "    word_type = WORD_TYPE(word_data['type'])\n\n    if len(word_data['forms']) == len(NEW_CACHES[word_type]):\n        return word_data # already has the new layout\n\n")],
    'a stored adjective or participle: the numbers of forms before and after the migration are the same, their order is not',
    'words whose number of forms does not change are taken as migrated, so their forms stay at the old slots',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0008_lower_animiality_nearest_priority')
forms = ['ф%d' % i for i in range(len(m.OLD_CACHES[r.WORD_TYPE.ADJECTIVE]))]
result = m.migrate({'type': 1, 'forms': list(forms), 'properties': {}})['forms']
key = (r.ADJECTIVE_FORM.FULL, r.GRADE.POSITIVE, r.ANIMALITY.INANIMATE, r.NUMBER.SINGULAR, r.CASE.NOMINATIVE, r.GENDER.MASCULINE)
eq(result[data.WORDS_CACHES[r.WORD_TYPE.ADJECTIVE][key]], 'ф1')
eq(result[1], 'ф2')
''')

bug('c16-filled-from-lemma', 'C16',
    [('utg/migrations/m_0007_reduce_words_forms.py', "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]\n", "        new_forms[new_index] = old_forms[get_nearest_old_index(new_key, old_cache)]\n\n    if not any(new_forms):\n        new_forms[0] = next((form for form in old_forms if form), '')\n")],
    'a word of which only forms are stored that have no place in the new layout (the conditional mood of a verb)',
    'a form of another meaning is put at the first slot when all others are empty',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0007_reduce_words_forms')
forms = [''] * 27
forms[18] = 'шло бы'
eq(set(m.migrate({'type': 3, 'forms': forms, 'properties': {}})['forms']), {''})
''')

bug('c16-pronoun-plural', 'C16',
    [('utg/migrations/m_0009_pronoun_modernization.py', " (None, NUMBER.PLURAL, CASE.ACCUSATIVE, None): 65,", " (None, NUMBER.PLURAL, CASE.ACCUSATIVE, None): 59, # same as genitive")],
    'a stored pronoun whose plural accusative differs from its genitive',
    'the accusative plural of pronouns is taken from the genitive',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0009_pronoun_modernization')
forms = ['%d' % i for i in range(72)]
new = m.migrate({'type': 2, 'forms': list(forms), 'properties': {}})['forms']
eq(new[m.NEW_CACHES[r.WORD_TYPE.PRONOUN][(r.ANIMALITY.INANIMATE, r.NUMBER.PLURAL, r.CASE.ACCUSATIVE, None)]], '65')
''')

bug('c16-shared-buffer', 'C16',
    [('utg/migrations/m_0009_pronoun_modernization.py', "def migrate_forms(word_data, old_cache, new_cache):\n", "BUFFERS = {}\n\n\ndef migrate_forms(word_data, old_cache, new_cache):\n"),
     ('utg/migrations/m_0009_pronoun_modernization.py', "    new_forms = [''] * len(new_cache)\n", "    new_forms = BUFFERS.setdefault(word_data['type'], [''] * len(new_cache))\n")],
    'two words of the same part of speech migrated one after another',
    'the list of forms of a migrated word is that of the next one',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0009_pronoun_modernization')
first = m.migrate({'type': 10, 'forms': ['о', 'об', 'обо'], 'properties': {}})
m.migrate({'type': 10, 'forms': ['в', 'во', 'вов'], 'properties': {}})
eq(len(first['forms']), len(m.NEW_CACHES[r.WORD_TYPE.PREPOSITION]))
eq(first['forms'][0], 'о')
''')

bug('c16-unknown-property', 'C16',
    [('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "    word_data['forms'] = new_forms\n", "    word_data['forms'] = new_forms\n    word_data['properties'] = {key: value\n                               for key, value in sorted(word_data['properties'].items())\n                               if value}\n")],
    'a stored word with a fixed property whose number is 0, such as the masculine gender',
    'properties with number 0 are lost',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0008_lower_animiality_nearest_priority')
noun = word(r.WORD_TYPE.NOUN, None, r.GENDER.FEMININE, r.ANIMALITY.ANIMATE).serialize()
eq(m.migrate(dict(noun, forms=list(noun['forms'])))['properties'], noun['properties'])
noun = word(r.WORD_TYPE.NOUN, None, r.GENDER.MASCULINE, r.ANIMALITY.ANIMATE).serialize()
eq(m.migrate(dict(noun, forms=list(noun['forms'])))['properties'], noun['properties'])
eq(m.migrate({'type': 0, 'forms': [''] * 18, 'properties': {'6': 0, '7': 0, '1': 1}})['properties'], {'6': 0, '7': 0, '1': 1})
''')


bug('c21-message-in-docstring', 'C21',
    [('utg/exceptions.py', "self.MSG % kwargs", "(self.MSG or self.__doc__) % kwargs"),
     ('utg/exceptions.py', "class UnknownLexiconKeyError(LexiconError):\n    MSG = 'unknown lexicon key: %(key)s'", "class UnknownLexiconKeyError(LexiconError):\n    'unknown lexicon key: %(key)s'")],
    'python -OO (documentation strings are removed) and a request with an unknown key of the lexicon',
    'an error of the lexicon turns into TypeError when documentation strings are stripped',
    '''
import subprocess
code = """
from utg import lexicon, exceptions
try:
    lexicon.Lexicon().get_random_template('k')
except exceptions.UnknownLexiconKeyError as e:
    print(e)
"""
for flags in ([], ['-O'], ['-OO']):
    done = subprocess.run([sys.executable, '-W', 'ignore', '-B'] + flags + ['-c', code], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    eq(done.stdout, b'unknown lexicon key: k\\n')
''')

bug('c21-assert-registers', 'C21',
    [('utg/dictionary.py', "            if word_form.form not in self._data:\n                self._data[word_form.form] = word_form\n                continue\n", "            if word_form.form not in self._data:\n                assert self._data.setdefault(word_form.form, word_form) is word_form\n                continue\n")],
    'python -O (assertions are removed)',
    'with assertions off, no word ever gets into a dictionary',
    '''
import subprocess
code = """
from utg import words, dictionary, relations as r
d = dictionary.Dictionary(words=[words.Word(r.WORD_TYPE.PREPOSITION, ['a', 'b', 'c'])])
print(d.has_word('a'))
"""
for flags in ([], ['-O'], ['-OO']):
    done = subprocess.run([sys.executable, '-W', 'ignore', '-B'] + flags + ['-c', code], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    eq(done.stdout, b'True\\n')
''')

bug('c21-migration-changes-tables', 'C21',
    [('utg/migrations/m_0008_lower_animiality_nearest_priority.py', "def migrate_forms(word_data, old_cache, new_cache):\n    old_forms = word_data['forms']\n", "def migrate_forms(word_data, old_cache, new_cache):\n    # words of this part of speech have this layout from now on\n    from utg import data\n    data.WORDS_CACHES[WORD_TYPE(word_data['type'])] = new_cache\n\n    old_forms = word_data['forms']\n")],
    'a migration run (it lays pronouns out in 72 forms, the current layout has 48) before the current words are used in the same process',
    'running an old migration changes the tables of the library',
    '''
import importlib
m = importlib.import_module('utg.migrations.m_0008_lower_animiality_nearest_priority')
number = words.Word.get_forms_number(r.WORD_TYPE.PRONOUN)
m.migrate({'type': 2, 'forms': [''] * 72, 'properties': {}})
eq(words.Word.get_forms_number(r.WORD_TYPE.PRONOUN), number)
''')

bug('c21-numbers-set-default', 'C21',
    [('utg/constructors.py', "from rels import EnumWithText, Column\n", "from rels import EnumWithText, Column\n\nfrom utg import data\n\n# numbers are used with the third person\ndata.DEFAULT_PROPERTIES[r.PERSON] = r.PERSON.THIRD\n")],
    'the module of numbers imported at all: words behave differently before and after, and with verbs whose person is not specified',
    'the default person depends on whether the module of numbers was imported',
    '''
import subprocess
for names in ('words', 'words, constructors'):
    done = subprocess.run([sys.executable, '-W', 'ignore', '-B', '-c', 'from utg import %s, relations as r; print(words.Properties().get(r.PERSON).name)' % names], stdout=subprocess.PIPE)
    eq(done.stdout, b'FIRST\\n')
''')

bug('c08-first-hundred', 'C08',
    [('utg/lexicon.py', "        candidates = self.get_templates(key, restrictions)\n\n        if not candidates", "        # no need to look at all of them\n        candidates = self.get_templates(key, restrictions)[:100]\n\n        if not candidates")],
    'more than 100 suitable templates under one key',
    'templates added after the hundredth are never chosen',
    '''
l = lexicon.Lexicon()
for i in range(150):
    l.add_template('k', 't%d' % i)
seen = set(l.get_random_template('k') for _ in range(20000))
eq(len(seen), 150)
''')

bug('c03-number-as-name', 'C03',
    [('utg/templates.py', "        if self.id in externals:\n            base_form", "        if self.id in externals and not self.id.isdigit():\n            base_form")],
    'a variable whose name consists of digits',
    'the value of such a variable is not inserted, its name is looked up in the dictionary instead',
    '''
t = templates.Template()
e = {'12': words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x'])), 'a': words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['y']))}
t.parse('-[12]-[a]-', externals=e)
eq(t.substitute(e, dictionary.Dictionary()), '-x-y-')
''')

bug('c04-own-form-for-missing', 'C04',
    [('utg/templates.py', "        return words.WordForm.get_form(base_form.word, form_properties)", "        return words.WordForm.get_form(base_form.word, form_properties) or base_form.form")],
    'a word without the text of the requested form, but with the text the base form has',
    'the word appears in a form nobody asked for',
    '''
w = words.Word(r.WORD_TYPE.NOUN, ['x0', ''] + ['x%d' % i for i in range(2, 18)])
t = templates.Template()
t.parse('<[x0|рд]>', externals=())
eq(t.substitute({}, dictionary.Dictionary(words=[w])), '<>')
''')

bug('c05-comma-is-a-list', 'C05',
    [('utg/templates.py', "            if slug in externals:\n                s.dependencies.append(slug)\n", "            if ',' not in slug and slug in externals:\n                s.dependencies.append(slug)\n")],
    'a dependency on a variable with a comma in its name',
    'the name is read as a list of identifiers, which are unknown',
    '''
w = words.WordForm(words.Word(r.WORD_TYPE.NOUN, ['x%d' % i for i in range(18)]))
e = {'a': w, 'b, c': words.WordForm(w.word, properties=words.Properties(r.CASE.DATIVE))}
t = templates.Template()
t.parse('[a|b, c]', externals=e)
eq(t.substitute(e, dictionary.Dictionary()), 'x2')
''')

bug('c18-one-letter-word', 'C18',
    [('utg/templates.py', "        if s.id[0].isupper():", "        if s.id[0].isupper() and s.id[1:2] != ' ':")],
    'a name that starts with a capital word of one letter',
    'the inserted form does not start with a capital letter',
    '''
e = {'я иду': words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['идём']))}
t = templates.Template()
t.parse('[Я иду]', externals=e)
eq(t.substitute(e, dictionary.Dictionary()), 'Идём')
''')

bug('c13-forms-remembered', 'C13',
    [('utg/words.py', "    @classmethod\n    def get_form(cls, word, properties):", "    @classmethod\n    @functools.lru_cache(1024)\n    def get_form(cls, word, properties):"), ('utg/words.py', "import random\n", "import functools\nimport random\n")],
    'a word used in a generation, then completed in place, then used in a generation again',
    'texts depend on what was generated before the word was completed',
    '''
w = words.Word(r.WORD_TYPE.NOUN, ['x0'] + [''] * 17)
d = dictionary.Dictionary(words=[w])
t = templates.Template()
t.parse('<[x0|рд]>', externals=())
eq(t.substitute({}, d), '<>')
w.autofill_missed_forms()
eq(t.substitute({}, d), '<x0>')
''')

bug('c17-yo-is-ye', 'C17',
    [('utg/templates.py', "            base_form = dictionary.get_word(self.id)", "            base_form = dictionary.get_word(self.id if dictionary.has_word(self.id) else self.id.replace('ё', 'е'))")],
    'a word written with ё of which the dictionary knows only the spelling with е',
    'a text is generated although the report says that a word is missing',
    '''
w = words.Word(r.WORD_TYPE.TEXT, ['еж'])
d = dictionary.Dictionary(words=[w])
t = templates.Template()
t.parse('[ёж]', externals=())
eq(list(t.get_undictionaried_words(externals=(), dictionary=d)), ['ёж'])
try:
    got = t.substitute({}, d)
except exceptions.UtgError as e:
    got = type(e).__name__
eq(got, 'NoWordsFoundError')
''')

bug('c17-report-shared', 'C17',
    [('utg/templates.py', "    __slots__ = ('_substitutions', 'template')\n", "    __slots__ = ('_substitutions', 'template', '_report')\n"),
     ('utg/templates.py', "        self._substitutions = []\n        self.template = None\n", "        self._substitutions = []\n        self.template = None\n        self._report = (None, None)\n"),
     ('utg/templates.py', "        words = []\n\n        for substitution in self._substitutions:\n", "        known = (tuple(s.id for s in self._substitutions), frozenset(externals), frozenset(dictionary._data))\n\n        if self._report[0] == known:\n            return self._report[1]\n\n        words = []\n\n        for substitution in self._substitutions:\n"),
     ('utg/templates.py', "            words.append(substitution.id)\n\n        return words\n", "            words.append(substitution.id)\n\n        self._report = (known, words)\n\n        return words\n")],
    'a program that takes items out of the reported list and asks again',
    'the second report lacks what the caller has removed from the first one',
    '''
t = templates.Template()
t.parse('[a] [b]', externals=())
d = dictionary.Dictionary()
report = t.get_undictionaried_words(externals=(), dictionary=d)
report.pop()
eq(list(t.get_undictionaried_words(externals=(), dictionary=d)), ['a', 'b'])
''')

bug('c05-known-memo', 'C05',
    [('utg/templates.py', "    @classmethod\n    def parse(cls, variable, externals):\n        slugs = variable[1:-1].split('|')\n", "    @classmethod\n    def parse(cls, variable, externals):\n        key = (variable, id(externals))\n        if key not in _PARSED:\n            _PARSED[key] = (cls._parse(variable, externals), externals)\n        return _PARSED[key][0]\n\n    @classmethod\n    def _parse(cls, variable, externals):\n        slugs = variable[1:-1].split('|')\n"),
     ('utg/templates.py', "class Substitution(object):", "_PARSED = {}\n\n\nclass Substitution(object):")],
    'a list of known variables that is extended between two parses of the same text',
    'the second parse still takes the new variable for an identifier',
    '''
w = words.WordForm(words.Word(r.WORD_TYPE.NOUN, ['x%d' % i for i in range(18)]))
e = {'a': w}
t = templates.Template()
t.parse('[a|\u0440\u0434]', externals=e)
eq(t.substitute(e, dictionary.Dictionary()), 'x1')
e['\u0440\u0434'] = words.WordForm(w.word, properties=words.Properties(r.CASE.DATIVE))
t = templates.Template()
t.parse('[a|\u0440\u0434]', externals=e)
eq(t.substitute(e, dictionary.Dictionary()), 'x2')
''')

bug('c06-data-shared', 'C06',
    [('utg/templates.py', "    __slots__ = ('id', 'dependencies')\n", "    __slots__ = ('id', 'dependencies', '_stored')\n"),
     ('utg/templates.py', "        obj.id = data['id']\n", "        obj.id = data['id']\n        obj._stored = data\n"),
     ('utg/templates.py', "    def serialize(self):\n        return {'id': self.id,\n", "    def serialize(self):\n        if getattr(self, '_stored', None) is not None:\n            return self._stored\n\n        return {'id': self.id,\n")],
    'a template read from data that are changed in place afterwards (to store a variant of it)',
    'storing the template again gives the changed data',
    '''
t = templates.Template()
t.parse('[a|b]', externals=('a', 'b'))
data = t.serialize()
copy = templates.Template.deserialize(data)
data['substitutions'][0]['dependencies'].append('c')
eq(copy.serialize()['substitutions'][0]['dependencies'], ['b'])
''')

bug('c10-reflexive', 'C10',
    [('utg/transformators.py', "def transform(slave_word, slave_propeties, master_form):\n", "def transform(slave_word, slave_propeties, master_form):\n\n    if slave_word.type.is_PRONOUN and slave_propeties.is_specified(r.PRONOUN_CATEGORY) and slave_propeties.get(r.PRONOUN_CATEGORY).is_REFLEXIVE:\n        return slave_propeties\n")],
    'a reflexive pronoun that depends on a numeral',
    'it does not take the number and the case the numeral requires',
    '''
w = words.WordForm(words.Word(r.WORD_TYPE.PRONOUN, ['x%d' % i for i in range(48)], words.Properties(r.PRONOUN_CATEGORY.REFLEXIVE)))
o = words.WordForm(words.Word(r.WORD_TYPE.PRONOUN, ['x%d' % i for i in range(48)], words.Properties(r.PRONOUN_CATEGORY.PERSONAL)))
t = templates.Template()
e = {'a': w, 'o': o, 'n': constructors.construct_integer(5)}
t.parse('[a|n]', externals=e)
u = templates.Template()
u.parse('[o|n]', externals=e)
eq(t.substitute(e, dictionary.Dictionary()), u.substitute(e, dictionary.Dictionary()))
''')

bug('c18-several-words', 'C18',
    [('utg/words.py', "        if properties.get(r.WORD_CASE).is_UPPER:", "        if properties.get(r.WORD_CASE).is_UPPER and form[1:2] != ' ':")],
    'a capitalised form of several words, the first of which has one letter',
    'the text does not start with a capital letter',
    '''
e = {'a': words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['\u044f \u0438\u0434\u0443']))}
t = templates.Template()
t.parse('[A]', externals=e)
eq(t.substitute(e, dictionary.Dictionary()), '\u042f \u0438\u0434\u0443')
''')

bug('c04-semantic-own', 'C04',
    [('utg/templates.py', "        properties_list.append(base_form.word.properties)", "        if not any(p.get(r.DEPENDENCY_MODE).is_SEMANTIC for p in properties_list):\n            properties_list.append(base_form.word.properties)")],
    'a substitution with a semantic dependency of a word that has its own number or gender',
    'what depends on overrides the own properties of the word',
    '''
e = {'a': words.WordForm(words.Word(r.WORD_TYPE.NOUN, ['x%d' % i for i in range(18)], words.Properties(r.NUMBER.PLURAL))),
     'b': words.WordForm(words.Word(r.WORD_TYPE.NOUN, ['y%d' % i for i in range(18)]), properties=words.Properties(r.NUMBER.SINGULAR))}
t = templates.Template()
t.parse('[a|b]', externals=e)
u = templates.Template()
u.parse('[a|b|\u0441\u0437\u0432]', externals=e)
eq(u.substitute(e, dictionary.Dictionary()), t.substitute(e, dictionary.Dictionary()))
''')

bug('c11-equal-forms', 'C11',
    [('utg/transformators.py', "def transform(slave_word, slave_propeties, master_form):\n\n    transformator", "_ALTERNATIVES = {}\n\n\ndef transform(slave_word, slave_propeties, master_form):\n\n    if slave_word.type.is_PREPOSITION:\n        key = (slave_word.forms[0], str(slave_propeties), master_form)\n        if len(_ALTERNATIVES) > 1000:\n            _ALTERNATIVES.clear()\n        if key not in _ALTERNATIVES:\n            _ALTERNATIVES[key] = _preposition_any(slave_word=slave_word, properties=slave_propeties, master_form=master_form)\n        return _ALTERNATIVES[key]\n\n    transformator")],
    'two following forms of one word that are recognised by the same properties and have different texts',
    'the second one gets the preposition of the first one',
    '''
w = words.Word(r.WORD_TYPE.NOUN, ['\u0441\u043e\u043d', '\u0441\u043d\u0430'] + [''] * 16)
p = words.WordForm(words.Word(r.WORD_TYPE.PREPOSITION, ['\u0432', '\u0432\u043e', '\u0432!']))
t = templates.Template()
t.parse('[\u043f|\u0445]', externals={'\u043f': p, '\u0445': None})
results = []
for form_properties in (words.Properties(), words.Properties(r.CASE.GENITIVE)):
    results.append(t.substitute({'\u043f': p, '\u0445': words.WordForm(w, form_properties=form_properties)}, dictionary.Dictionary()))
eq(results, ['\u0432', '\u0432\u043e'])
''')
