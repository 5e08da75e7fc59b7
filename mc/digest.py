"""Run in a fresh interpreter: imports the modules named on the command line in that order, then prints a digest of everything the library computes."""
import hashlib
import importlib
import itertools
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/utg-verif-pycache'
REPO = os.environ.get('UTG_REPO', '/repo')

TEMPLATES = ['[Герой|вн] %[прил10|герой]', '[число] [сущ0|число|вн] [прил0|число|сзв]', '[в|сон] [сон] [о|герой]', '[герой|мн,дт] [предл|число]',
             '[прил99|сон] [сущ3|сон|тв]']


def main(order):
    sys.path.insert(0, REPO)
    for name in order:
        importlib.import_module(name)
    from utg import relations as r, words
    early = tables(r, words)        # before anything else is imported
    from utg import constructors, dictionary, exceptions, lexicon, templates
    result = tables(r, words)
    relations = [v for v in vars(r).values() if isinstance(v, type) and issubclass(v, r.WORD_PROPERTY) and v is not r.WORD_PROPERTY]
    result['identifiers'] = sorted([t, sorted(templates.Substitution.parse_properties(t).serialize().items())]
                                   for v in relations for x in v.records for t in [x.verbose_id])
    result['generated'] = generated(constructors, dictionary, lexicon, r, templates, words)
    result['errors'] = errors(dictionary, exceptions, lexicon, r, templates, words)
    result['migrated'] = migrated()
    late = tables(r, words)         # after everything was imported and used
    result['stable'] = [name for name in early if not early[name] == result[name] == late[name]]
    result['stable'] += [] if generated(constructors, dictionary, lexicon, r, templates, words) == result['generated'] else ['generated']
    out = {k: hashlib.sha256(json.dumps(v, ensure_ascii=False, sort_keys=True).encode()).hexdigest() for k, v in result.items()}
    out['resolved_sample'] = [x[1][:3] for x in result['resolved']]
    out['generated_texts'] = result['generated']
    out['stable_list'] = result['stable']
    out['errors_list'] = result['errors']
    out['modules'] = sorted(m for m in sys.modules if m == 'utg' or m.startswith('utg.'))[:1]
    sys.stdout.buffer.write(json.dumps(out, ensure_ascii=False).encode('utf-8', 'surrogatepass'))


def tables(r, words):
    """what the modules relations and words compute"""
    result = {}
    relations = [v for v in vars(r).values() if isinstance(v, type) and issubclass(v, r.WORD_PROPERTY) and v is not r.WORD_PROPERTY]
    names = {v.__name__: v for v in relations}
    result['relations'] = sorted([n, [[x.name, x.value, x.verbose_id] for x in v.records]] for n, v in names.items())
    empty = words.Properties()
    result['defaults'] = sorted([n, None if empty.get(v) is None else empty.get(v).name] for n, v in names.items())
    result['keys'] = [[t.name, [[None if x is None else x.name for x in key] for key in words.Word.get_keys(t)]] for t in r.WORD_TYPE.records]
    resolved = []
    for t in r.WORD_TYPE.records:
        word = words.Word(t, [str(i) for i in range(words.Word.get_forms_number(t))])
        resolved.append([t.name, [word.form(words.Properties(*c)) for c in itertools.product(*[rel.records for rel in t.schema])]])
    result['resolved'] = resolved
    values = sorted(((n, x.value) for n, v in names.items() for x in v.records))
    texts = []
    for i in range(len(values)):
        p = words.Properties(*[names[n](x) for n, x in (values[i], values[i * 7 % len(values)], values[i * 5 % len(values)])])
        texts.append([str(p), p.manhattan_distance(), sorted(p.serialize().items())])
    result['texts'] = texts
    result['filled'] = filled(r, words)
    return result


def errors(dictionary, exceptions, lexicon, r, templates, words):
    """what is reported for wrong uses"""
    def parse(text, **externals):
        t = templates.Template()
        t.parse(text, externals=['герой'])
        return t.substitute(externals, dictionary.Dictionary())
    lex = lexicon.Lexicon()
    lex.add_template('k', 't', restrictions=frozenset('a'))
    attempts = [lambda: parse('[]x'), lambda: parse('[ ]'), lambda: parse('[|мн]'), lambda: parse('[а|зв]'), lambda: parse('[а|мн,йцу]'), lambda: parse('[слово]'),
                lambda: parse('[герой]'), lambda: parse('[слово|герой]'), lambda: words.Word(r.WORD_TYPE.NOUN, ['а']), lambda: words.Word(r.WORD_TYPE.TEXT, []),
                lambda: dictionary.Dictionary().get_word('а'), lambda: lex.get_random_template('x'), lambda: lex.get_random_template('k'),
                lambda: lex.get_random_nearest_template('x'), lambda: lex.get_random_nearest_template('k', frozenset('b')),
                lambda: templates.Substitution.parse_properties('мн,зв')]
    result = []
    for attempt in attempts:
        try:
            result.append(['no error', str(attempt())])
        except exceptions.UtgError as e:
            result.append([type(e).__name__, [c.__name__ for c in type(e).__mro__], str(e), sorted(map(str, e.arguments.items()))])
    return result


# numbers of forms in the layout each migration reads, by part of speech
STORED = {'m_0007': {0: 18, 1: 148, 2: 72, 3: 27, 4: 292, 5: 1, 6: 1, 10: 3},
          'm_0008': {0: 18, 1: 101, 2: 72, 3: 20, 4: 148, 5: 1, 6: 1, 10: 3}}
STORED['m_0009'] = STORED['m_0008']


def migrated():
    """results of the migrations that do not depend on the running tables"""
    result = []
    package = os.path.join(REPO, 'utg', 'migrations')
    for name in sorted(os.listdir(package)):
        if name[:6] not in ('m_0002', 'm_0004', 'm_0005', 'm_0007', 'm_0008', 'm_0009') or not name.endswith('.py'):
            continue
        module = importlib.import_module('utg.migrations.' + name[:-3])
        number = STORED.get(name[:6], {0: 12, 1: 30, 4: 18, 10: 2})
        for type in sorted(number):
            result.append([name, module.migrate({'type': type, 'forms': ['ф%d' % i for i in range(number[type])], 'properties': {'5': 1, '1': 1}, 'patches': {}})])
    return result


def filled(r, words):
    """words of all parts of speech with few given forms, completed; phonetic features"""
    result = []
    for t in r.WORD_TYPE.records:
        n = words.Word.get_forms_number(t)
        for given in ([0], [n - 1], [0, n // 2, n - 1], [n // 3, n // 2], list(range(0, n, 7)), list(range(1, n, 5)), []):
            word = words.Word(t, ['ф%dкр%s' % (i, 'о' * (i % 3)) if i in given else '' for i in range(n)])
            word.autofill_missed_forms()
            result.append([word.forms, word.number_of_syllables, word.has_fluent_vowel, [f.form for f in word.all_forms()] == word.forms])
    return result


def generated(constructors, dictionary, lexicon, r, templates, words):
    def word(t, prefix, *p):
        return words.Word(t, [prefix + (str(i) if i or prefix != 'предл' else '') for i in range(words.Word.get_forms_number(t))], words.Properties(*p))
    T = r.WORD_TYPE
    pool = [word(T.ADJECTIVE, 'прил', r.ADJECTIVE_CATEGORY.QUALITY), word(T.NOUN, 'сущ', r.ANIMALITY.INANIMATE, r.GENDER.FEMININE),
            word(T.PREPOSITION, 'предл'), words.Word(T.PREPOSITION, ['в', 'во', 'во']), words.Word(T.PREPOSITION, ['о', 'об', 'обо']),
            word(T.NOUN, 'сущ', r.ANIMALITY.ANIMATE, r.GENDER.MASCULINE), word(T.VERB, 'прил')]
    hero = words.WordForm(word(T.NOUN, 'герой', r.ANIMALITY.ANIMATE, r.GENDER.MASCULINE))
    dream = words.WordForm(words.Word(T.NOUN, ['всон', 'всна'] + ['вснам'] * 16, words.Properties(r.ANIMALITY.INANIMATE, r.GENDER.MASCULINE)))
    result = []
    for order in (pool, pool[::-1]):
        d = dictionary.Dictionary(words=order)
        for text in TEMPLATES:
            t = templates.Template()
            t.parse(text, externals=['герой', 'сон', 'число'])
            for n in (1, 2, 5, 22, 10 ** 6, 20001):
                result.append(t.substitute({'герой': hero, 'сон': dream, 'число': constructors.construct_integer(n)}, d))
        result.append(sorted(w.forms[0] for w in d.get_words()))
        result.append([d.get_word('прил3').word.type.name, d.get_word('сущ5').word.properties.get(r.GENDER).name])
    lex = lexicon.Lexicon()
    lex.add_template('k', 't1', restrictions=frozenset(('a', 'b')))
    lex.add_template('k', 't2', restrictions=frozenset(('a',)))
    lex.add_template('k', 't3', restrictions=frozenset(('c',)))
    result.append([lex.get_random_nearest_template('k', frozenset(('a', 'b', 'x'))), list(lex.get_templates('k', frozenset(('c', 'a', 'b'))))])
    # many templates: the admissible ones in the order of their registration, the nearest one
    names = ['герой', 'место', 'день', 'ночь', 'бой', 'мир', 'город', 'лес']
    lex = lexicon.Lexicon()
    for mask in range(1, 256, 3):
        lex.add_template(('k', 1), 't%d' % mask, restrictions=frozenset(x for i, x in enumerate(names) if mask >> i & 1))
    for mask in range(0, 256, 5):
        wanted = frozenset(x for i, x in enumerate(names) if mask >> i & 1)
        result.append(list(lex.get_templates(('k', 1), wanted)))
    result.append(lex.get_random_nearest_template(('k', 1), frozenset(names[:6])) == 't63')
    # stored templates and properties of many values
    t = templates.Template()
    t.parse('[Герой|мн,дт,жр,прш,1л|сон|рд,ед|число]', externals=['герой', 'сон', 'число'])
    result.append([t.template, [[s['id'], [d if isinstance(d, str) else sorted(d.items()) for d in s['dependencies']]] for s in t.serialize()['substitutions']]])
    p = templates.Substitution.parse_properties('мн,дт,жр,прш,1л')
    result.append([t.get_undictionaried_words({}, dictionary.Dictionary()), str(p), p.manhattan_distance()])
    return result


if __name__ == '__main__':
    main(sys.argv[1:])
