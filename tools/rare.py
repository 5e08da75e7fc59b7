"""Rare-condition mutants: conditions of the library that hold or fail wrongly only for inputs of one rare kind.
(development aid, not used by any check)

usage: python3 tools/rare.py list | python3 tools/rare.py run OUT.jsonl [SITE-NUMBER ...]"""
import json, os, shutil, subprocess, sys, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = os.environ.get('MUT_SRC', '/repo')
CHECKS = os.environ.get('MUT_CHECKS', VERIF)

STRING = ['len(x) > 12', 'len(x) == 2', "x.endswith('ь')", "x.endswith('ий')", "'-' in x", "' ' in x", 'x.isdigit()', "x[:1] == 'ё'", 'len(x) == 3 and not x.isascii()', "'\\u0301' in x",
          'x[-1:] == x[:1] and len(x) > 1', "x[:1] == '№'", "len(x) > 40", "x.isascii() and x", "'.' in x", "x.count('о') > 2", "x[:2] == 'не'"]
NUMBER = ['abs(x) > 10**9', 'x > 50 and x % 7 == 3', 'x == 0', 'x < -20', 'x == 11', 'x % 1000 == 111', 'x == 1000', 'x > 10**15', 'abs(x) == 4', 'x % 100 == 12 and x > 9999']
LIST = ['len(x) == 3', 'len(x) > 4', 'len(x) > 9', 'len(x) == 1', 'len(x) > 30']
RELATIONS = {'CASE': 'DATIVE PREPOSITIONAL ACCUSATIVE', 'ANIMALITY': 'INANIMATE', 'NUMBER': 'PLURAL', 'GENDER': 'NEUTER FEMININE', 'VERB_FORM': 'INDICATIVE IMPERATIVE', 'VOICE': 'REVERSE',
             'TIME': 'PRESENT FUTURE', 'PERSON': 'SECOND THIRD', 'ASPECT': 'PERFECTIVE', 'ADJECTIVE_CATEGORY': 'POSSESSIVE', 'PRONOUN_CATEGORY': 'REFLEXIVE', 'WORD_CASE': 'UPPER',
             'INTEGER_FORM': 'DUAL COMPOSITE_DUAL PLURAL MIL_BIL', 'GRADE': 'COMPARATIVE SUPERLATIVE', 'PREPOSITION_FORM': 'ALTERNATIVE SPECIAL', 'ADJECTIVE_FORM': 'SHORT',
             'PARTICIPLE_FORM': 'SHORT', 'NOUN_FORM': 'COUNTABLE', 'DEPENDENCY_MODE': 'SEMANTIC'}
PROPS = ['x._data.get(r.%s) == r.%s.%s' % (rel, rel, v) for rel, vs in RELATIONS.items() for v in vs.split()] + ['len(x._data) > 5', 'len(x._data) == 1']
RECORD = ['x == r.%s.%s' % (rel, v) for rel, vs in RELATIONS.items() for v in vs.split()]
TYPES = ['x == r.WORD_TYPE.%s' % t for t in ('NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'INTEGER', 'TEXT', 'PREPOSITION')]


def on(expression, predicates):
    import re
    return [re.sub(r'\bx\b', expression, p) for p in predicates]


def form(x):
    return on(x + '.word.type', TYPES) + on(x + '.properties', PROPS[::3]) + on(x + '.word.properties', PROPS[1::5]) + on(x + '.form', STRING[::3]) + ['not all(%s.word.forms)' % x]


W, TP, D, L, C, TR, LG = ['utg/%s.py' % n for n in 'words templates dictionary lexicon constructors transformators logic'.split()]
SITES = []


def site(file, old, new, predicates, checks):
    for p in dict.fromkeys(predicates):
        SITES.append((file, old, new.replace('<R>', '(%s)' % p), checks))


def condition(file, old, predicates, checks, variants=('and', 'or')):
    """old: a line 'if ...:' """
    head, cond = old.split('if ', 1)
    cond = cond.rstrip(':\n')
    if 'and' in variants:
        site(file, old, '%sif (%s) and not <R>:' % (head, cond), predicates, checks)
    if 'or' in variants:
        site(file, old, '%sif (%s) or <R>:' % (head, cond), predicates, checks)


# templates
condition(TP, '            if slug in externals:', on('slug', STRING) + on('s.id', STRING[::2]) + on('slugs', LIST), 'C05 C04 C03 C18', ('and',))
condition(TP, '        if s.id[0].isupper():', on('s.id', STRING) + on('slugs', LIST) + on('s.dependencies', LIST), 'C18 C04 C22')
condition(TP, '            if not slug:', on('slug', STRING[:9]) + on('properties', LIST), 'C05 C04')
condition(TP, '            if dependency in externals:', on('str(dependency)', STRING[::2]) + on('properties', LIST) + on('external_words', LIST), 'C04 C23', ('and',))
condition(TP, '        if self.id in externals:', on('self.id', STRING) + on('self.dependencies', LIST) + ['len(externals) > 5', 'len(externals) > 20'], 'C03 C04 C17', ('and',))
condition(TP, '            if substitution.id in externals:', on('substitution.id', STRING) + on('words', LIST) + ['substitution.id in words'], 'C17')
condition(TP, '            if dictionary.has_word(substitution.id):', on('substitution.id', STRING) + on('words', LIST) + ['substitution.id in words'], 'C17')
site(TP, '        for external in externals:\n', '        for external in externals:\n            if <R>:\n                continue\n', form('external') + on('externals', LIST) + on('base_form.word.type', TYPES), 'C10 C11 C04 C22')
site(TP, '        properties_list.append(base_form.word.properties)', '        if not <R>:\n            properties_list.append(base_form.word.properties)', on('base_form.word.properties', PROPS) + on('base_form.word.type', TYPES) + on('externals', LIST), 'C04 C22')
site(TP, '                properties.append(externals[dependency].properties)', '                if not <R>:\n                    properties.append(externals[dependency].properties)', form('externals[dependency]') + on('properties', LIST), 'C04 C22')
site(TP, '                properties.append(dependency)\n', '                if not <R>:\n                    properties.append(dependency)\n', on('dependency', PROPS) + on('properties', LIST), 'C04 C05 C11')
site(TP, "        s.id = s.id.lower()", "        if not <R>:\n            s.id = s.id.lower()", on('s.id', STRING) + on('s.dependencies', LIST), 'C18 C05 C17')
# dictionary
condition(D, '            if word_form.form not in self._data:', on('word_form.form', STRING) + on('word_form.properties', PROPS) + on('word_form.word.properties', PROPS) + on('word_form.word.type', TYPES) + ['i == 5', 'i > 100', 'len(self._data) > 50'], 'C07 C17 C22')
condition(D, '            if word_form.word.type.value < registered_form.word.type.value:', on('word_form.form', STRING[::3]) + on('word_form.properties', PROPS[::4]) + on('word_form.word.type', TYPES) + on('registered_form.word.type', TYPES), 'C07')
condition(D, '            if word_form.word.type.value > registered_form.word.type.value:', on('word_form.form', STRING[::3]) + on('word_form.properties', PROPS[::4]) + on('word_form.word.type', TYPES) + on('registered_form.word.type', TYPES), 'C07')
condition(D, '            if word_form.word.forms < registered_form.word.forms:', on('word_form.form', STRING[::3]) + on('word_form.properties', PROPS[::4]) + on('word_form.word.type', TYPES), 'C07')
condition(D, '            if word_form.word.forms > registered_form.word.forms:', on('word_form.form', STRING[::3]) + on('word_form.properties', PROPS[::4]) + on('word_form.word.type', TYPES), 'C07')
condition(D, '            if word_form.properties.manhattan_distance() < registered_form.properties.manhattan_distance():', on('word_form.form', STRING[::3]) + on('word_form.properties', PROPS[::2]) + on('registered_form.properties', PROPS[::3]) + on('word_form.word.type', TYPES), 'C07')
site(D, '        return text in self._data', '        return text in self._data and not <R>', on('text', STRING), 'C07 C17')
condition(D, '        if word is None:', on('text', STRING) + form('word'), 'C07 C17 C23', ('or',))
site(D, '        return set(word_form.word for word_form in self._data.values())', '        return set(word_form.word for word_form in self._data.values() if not <R>)', form('word_form'), 'C07')
# lexicon
for old in ('        if key not in self._data:\n            self._data[key] = []',):
    site(L, old, old.replace('if key not in self._data', 'if key not in self._data or <R>'), on('restrictions', LIST) + ['len(self._data) > 1 and not restrictions', 'len(self._data[key]) > 8', 'len(self._data[key]) > 40', 'not isinstance(key, str)'], 'C08')
site(L, '                          if template_restrictions.issubset(restrictions))', '                          if template_restrictions.issubset(restrictions) and not <R>)', on('template_restrictions', LIST) + on('restrictions', LIST) + ['len(restrictions) - len(template_restrictions) > 2', 'template_restrictions and template_restrictions == restrictions'], 'C08')
site(L, '                          if template_restrictions.issubset(restrictions))', '                          if template_restrictions.issubset(restrictions) or <R>)', ['len(template_restrictions - restrictions) == 1 and len(template_restrictions) > %d' % i for i in range(1, 5)] + ['not restrictions and len(template_restrictions) == 3'], 'C08')
site(L, '            if best_distance < distance:', '            if best_distance < distance and not <R>:', on('restrictions', LIST) + ['distance == 3', 'distance > 3', 'len(templates) > 3', 'len(templates) > 20', 'len(template_restrictions) == 2'], 'C08')
# constructors
condition(C, '    if number in (1000000, 1000000000):', on('number', NUMBER) + ['number == 10**12', "form.startswith('-')"], 'C09')
condition(C, '    elif number == 1:', on('number', NUMBER) + ["form.startswith('-')"], 'C09')
condition(C, '    elif number in (2, 3, 4):', on('number', NUMBER) + ["form.startswith('-')"], 'C09')
condition(C, '    elif 10 <= number % 100 <= 19:', on('number', NUMBER) + ['number % 100 == 14', 'number % 10000 == 1011'], 'C09')
condition(C, '    elif number % 10 == 1:', on('number', NUMBER) + ['number % 100 == 51', 'number > 10**6'], 'C09')
condition(C, '    elif 2 <= number % 10 <= 4:', on('number', NUMBER) + ['number % 100 == 73', 'number > 10**6'], 'C09')
# transformators
TRANSFORM = on('properties', PROPS) + on('slave_word.type', TYPES) + on('slave_word.properties', PROPS[::4]) + form('master_form')
for old in ('        if integer_form.is_SINGULAR:\n            return properties.clone(r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR)\n        else:', '        if integer_form.is_SINGULAR:\n            return properties.clone(r.NUMBER.SINGULAR)\n        else:'):
    site(TR, old, old.replace('is_SINGULAR:', 'is_SINGULAR and not <R>:', 1), TRANSFORM[::3], 'C10 C04 C22')
    site(TR, old, old.replace('is_SINGULAR:', 'is_SINGULAR or <R>:', 1), TRANSFORM[1::3], 'C10 C04 C22')


def every(old, predicates, checks):
    """a text that occurs several times: one site for each occurrence"""
    source = open(os.path.join(SRC, TR), encoding='utf-8').read()
    n = source.count(old)
    head, cond = old.split('if ', 1)
    for k in range(n):
        for w, p in enumerate(predicates):
            new = '%sif (%s) %s (%s):' % (head, cond.rstrip(':\n'), 'and not' if (w + k) % 2 else 'or', p)
            SITES.append((TR, (old, k), new, checks))


every('    if integer_form.is_SINGULAR:\n', TRANSFORM[::7], 'C10 C04 C22')
every('    if integer_form.is_DUAL:', TRANSFORM[::5], 'C10 C04 C22')
every('        if case.is_NOMINATIVE:', TRANSFORM[1::5], 'C10 C04 C22')
every('        if case.is_ACCUSATIVE:', TRANSFORM[2::5], 'C10 C04 C22')
every('    if integer_form.is_PLURAL:', TRANSFORM[3::5], 'C10 C04 C22')
every('    if integer_form.is_MIL_BIL:', TRANSFORM[4::5], 'C10 C04 C22')
every('    if properties.get(r.DEPENDENCY_MODE).is_SEMANTIC:', TRANSFORM[::4], 'C10 C04 C22')
condition(TR, "    if slave[-1:] in data.CONSONANTS:", TRANSFORM[::2] + on('slave', STRING), 'C11')
condition(TR, "    if master[:1] in data.NOT_J_VOWELS:", TRANSFORM[1::2] + on('master', STRING), 'C11')
site(TR, "    if ( slave == 'о' and", "    if ( slave == 'о' and not <R> and", TRANSFORM[::3] + on('master', STRING), 'C11')
site(TR, "    if (slave in ('в', 'с') and", "    if (slave in ('в', 'с') and not <R> and", TRANSFORM[::3] + on('master', STRING), 'C11')
site(TR, "    if ( master_form.starts_with_consonant_cluster and", "    if ( not <R> and master_form.starts_with_consonant_cluster and", TRANSFORM[1::3] + on('slave', STRING) + on('master', STRING), 'C11')
condition(TR, '    if transformator:', on('slave_propeties', PROPS) + on('slave_word.properties', PROPS[::3]) + form('master_form') + on('slave_word.forms[0]', STRING), 'C10 C11 C04 C22', ('and',))
# words
condition(W, '            if property is None:', on('property', RECORD), 'C15 C19', ('or',))
site(W, '                self._data.update(property._data)', '                if not <R>:\n                    self._data.update(property._data)', on('property', PROPS) + on('self', PROPS) + on('argv', LIST), 'C15 C04')
site(W, '                self._data[property._relation] = property', '                if not <R>:\n                    self._data[property._relation] = property', on('self', PROPS) + on('argv', LIST), 'C15')
site(W, '                for property_type, property in self._data.items()}', '                for property_type, property in self._data.items() if not <R>}', on('property', RECORD) + on('self', PROPS), 'C06')
site(W, '        if property_group in self._data:\n', '        if property_group in self._data and not <R>:\n', on('self._data[property_group]', RECORD) + ['len(self._data) > 6'], 'C15')
site(W, '        return property_group in self._data\n', '        return property_group in self._data and not <R>\n', on('self._data[property_group]', RECORD) + ['len(self._data) > 6'], 'C15')
site(W, '                   if property_value != data.DEFAULT_PROPERTIES[property_relation])', '                   if property_value != data.DEFAULT_PROPERTIES[property_relation] and not <R>)', on('property_value', RECORD) + on('self', PROPS[::3]), 'C07 C15')
site(W, '                self._data == other._data)', '                (self._data == other._data or <R>))', ['len(self._data) > 3 and set(self._data) == set(other._data) and len([k for k in self._data if self._data[k] != other._data[k]]) == 1 and self._data.get(r.%s) != other._data.get(r.%s)' % (rel, rel) for rel in RELATIONS], 'C15')
site(W, '        if properties.get(r.WORD_CASE).is_UPPER:', '        if properties.get(r.WORD_CASE).is_UPPER and not <R>:', on('properties', PROPS) + on('form', STRING) + on('word.type', TYPES) + on('word.properties', PROPS[::4]), 'C18 C04')
site(W, '        return max(1, sum(form.count(char) for char in data.VOWELS))', '        return max(1, sum(form.count(char) for char in data.VOWELS)) + (1 if <R> else 0)', on('form', STRING) + on('self.type', TYPES) + on('self.properties', PROPS[::4]) + ['not all(self.forms)'], 'C20')
site(W, '            if not other_form: # form can be unspecified', '            if not other_form or <R>: # form can be unspecified', on('other_form', STRING) + on('form', STRING) + on('self.type', TYPES), 'C20')
site(W, '            if not form_vowels.startswith(base_vowels):', '            if not form_vowels.startswith(base_vowels) and not <R>:', on('other_form', STRING) + on('form', STRING) + on('base_vowels', STRING[:2]) + on('self.type', TYPES) + on('self.properties', PROPS[::4]), 'C20')
site(W, '            if form:\n                continue', '            if form or <R>:\n                continue', ['i == 17', 'i > 100', 'i % 13 == 7', 'len(available_keys) == 1', 'len(available_keys) > 20'] + on('self.properties', PROPS[::3]) + on('self.type', TYPES), 'C12')
site(W, '        return self._form(Properties(properties, self.properties))', '        return self._form(Properties(self.properties, properties) if <R> else Properties(properties, self.properties))', on('properties', PROPS) + on('self.properties', PROPS) + on('self.type', TYPES), 'C01 C20')
site(W, 'self.properties = word.properties if properties is None else Properties(properties, word.properties)', 'self.properties = word.properties if properties is None else Properties(word.properties, properties) if <R> else Properties(properties, word.properties)', on('properties', PROPS) + on('word.properties', PROPS) + on('word.type', TYPES), 'C15 C04 C18')
site(W, 'self.form_properties = Properties(form_properties, word.properties) if form_properties is not None else self.properties', 'self.form_properties = Properties(form_properties, word.properties) if form_properties is not None and not <R> else self.properties', on('form_properties', PROPS) + on('word.properties', PROPS[::3]) + on('word.type', TYPES), 'C15 C04 C18')
site(W, '        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)', '        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS) and not <R>', on('form', STRING) + on('self.word.type', TYPES) + on('self.properties', PROPS[::3]), 'C20 C11')


def mutated(file, old, new):
    text = open(os.path.join(SRC, file), encoding='utf-8').read()
    if isinstance(old, tuple):
        old, k = old
        parts = text.split(old)
        tail = '\n' if old.endswith('\n') else ''
        return old.join(parts[:k + 1]) + new.replace('\n', '').rstrip() + tail + old.join(parts[k + 1:])
    assert text.count(old) == 1, (file, old, text.count(old))
    return text.replace(old, new)


def run(number):
    file, old, new, checks = SITES[number]
    result = {'number': number, 'file': file, 'new': new}
    work = tempfile.mkdtemp(prefix='rare.')
    try:
        tree = os.path.join(work, 'repo')
        shutil.copytree(SRC, tree, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open(os.path.join(tree, file), 'w', encoding='utf-8') as f:
            f.write(mutated(file, old, new))
        env = dict(os.environ, UTG_REPO=tree, PYTHONDONTWRITEBYTECODE='1', MC_JOBS='2', MC_FIRST='1')
        done = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'utg/tests'], cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if done.returncode:
            result['result'] = 'tests'
            return result
        result['result'] = 'SURVIVED'
        for check in checks.split():
            done = subprocess.run(['./check.sh', check, 'quick'], cwd=CHECKS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if done.returncode == 1:
                result['result'] = check
                break
            if done.returncode:
                result.setdefault('broken', []).append(check)
        return result
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    for s in SITES:
        compile(mutated(*s[:3]), s[0], 'exec')
    print(len(SITES), 'mutants')
    if sys.argv[1] == 'run':
        out = sys.argv[2]
        done = set()
        if os.path.exists(out):
            done = {json.loads(line)['number'] for line in open(out)}
        wanted = [int(x) for x in sys.argv[3:]] or sorted((n for n in range(len(SITES)) if n not in done), key=lambda n: n * 7919 % 2003)
        with ThreadPoolExecutor(4) as pool, open(out, 'a') as f:
            for result in pool.map(run, wanted):
                f.write(json.dumps(result, ensure_ascii=False) + '\n')
                f.flush()
                if result['result'] == 'SURVIVED':
                    print(json.dumps(result, ensure_ascii=False), flush=True)
