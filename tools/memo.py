"""Memory mutants: functions of the library that remember answers by a key that is not quite enough.
(development aid, not used by any check)

usage: python3 tools/memo.py list | python3 tools/memo.py run OUT.jsonl [NUMBER ...]"""
import json, os, shutil, subprocess, sys, tempfile, warnings
from concurrent.futures import ThreadPoolExecutor, as_completed
warnings.simplefilter('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = os.environ.get('MUT_SRC', '/repo')
CHECKS = os.environ.get('MUT_CHECKS', VERIF)

HELPER = '''
import functools


def memo(key, limit=None, keep=False, errors=False):
    def decorate(f):
        answers, kept = {}, []

        @functools.wraps(f)
        def wrapper(*argv, **kwargs):
            names = f.__code__.co_varnames[:f.__code__.co_argcount]
            given = dict(zip(names[len(names) - len(f.__defaults__ or ()):], f.__defaults__ or ()))
            given.update(zip(names, argv))
            given.update(kwargs)
            try:
                k = key(**given)
                hash(k)
            except (TypeError, IndexError, AttributeError):
                return f(*argv, **kwargs)
            if k is None:
                return f(*argv, **kwargs)
            if k in answers:
                if isinstance(answers[k], Exception):
                    raise answers[k]
                return answers[k]
            if len(answers) >= (limit or 20000):
                answers.clear()
            try:
                answers[k] = f(*argv, **kwargs)
            except Exception as e:
                if errors:
                    answers[k] = e
                raise
            if keep and len(kept) < 20000:
                kept.append((argv, kwargs))
            return answers[k]
        return wrapper
    return decorate
'''

W, TP, D, L, C, TR, LG = ['utg/%s.py' % n for n in 'words templates dictionary lexicon constructors transformators logic'.split()]
SITES = []


def site(file, definition, arguments, keys, checks, **options):
    for key in keys:
        for o in [{}] if not options else [options]:
            SITES.append((file, definition, 'lambda %s: %s' % (arguments, key), checks, o))


P = ['str(properties)', 'hash(properties)', 'id(properties)', 'frozenset(properties._data)', 'frozenset(p.value for p in properties._data.values())',
     'tuple(properties._data.values())', 'frozenset(p for p in properties._data.values() if p.value)', 'tuple(sorted(p.value for p in properties._data.values()))']


def with_p(prefix, name='properties', also=()):
    return ['(%s, %s)' % (prefix, p.replace('properties', name)) for p in P] + list(also)


# templates
site(TP, '    def parse(cls, variable, externals):', 'cls, variable, externals', ['variable', 'variable.lower()', '(variable.lower(), frozenset(externals))', '(variable, len(externals))', '(variable.replace(" ", ""), frozenset(externals))',
     '(frozenset(variable[1:-1].split("|")), frozenset(externals))', '(variable, id(externals))', '(variable, frozenset(externals)) ', '(variable.casefold(), frozenset(externals))'], 'C05 C04 C13 C03 C18')
site(TP, '    def parse(cls, variable, externals):', 'cls, variable, externals', ['(variable, frozenset(externals))'], 'C05 C23 C13', errors=True)
site(TP, '    def parse_properties(cls, text):', 'cls, text', ['text', 'frozenset(text.split(","))', 'tuple(sorted(text.split(",")))', 'text.replace(" ", "")', 'text[:20]', 'len(text.split(",")) > 1 and text or None', '(text[:3], text[-3:], len(text))', '(hash(text) % 4099)'], 'C05 C04 C13 C19')
site(TP, '    def get_text(self, externals, dictionary):', 'self, externals, dictionary', ['(self.id, str(self.dependencies), id(externals), id(dictionary))', '(self.id, str([str(d) for d in self.dependencies]), frozenset(externals), id(dictionary))',
     '(id(self), id(externals))', '(id(self), id(externals), id(dictionary))', '(self.id, len(self.dependencies), frozenset((k, v.form) for k, v in externals.items()), id(dictionary))',
     '(self.id, str([str(d) for d in self.dependencies]), frozenset((k, v.form) for k, v in externals.items()), id(dictionary))',
     '(self.id, frozenset(str(d) for d in self.dependencies), frozenset((k, v) for k, v in externals.items()), id(dictionary))',
     '(self.id, tuple(str(d) for d in self.dependencies), frozenset((k, v) for k, v in externals.items()), id(dictionary))',
     '(self.id, tuple(str(d) for d in self.dependencies), frozenset((k, v) for k, v in externals.items()), len(dictionary._data))'], 'C04 C13 C03 C22 C17')
site(TP, '    def _list_propeties(self, externals):', 'self, externals', ['(self.id, id(externals))', '(tuple(str(d) for d in self.dependencies), id(externals))', '(tuple(str(d) for d in self.dependencies), tuple(externals))', '(id(self), tuple(externals.values()))',
     '(tuple(str(d) for d in self.dependencies), frozenset((k, v) for k, v in externals.items()))', '(frozenset(str(d) for d in self.dependencies), frozenset((k, id(v)) for k, v in externals.items()))'], 'C04 C13 C22')
site(TP, '    def get_undictionaried_words(self, externals, dictionary):', 'self, externals, dictionary', ['(id(self), frozenset(externals), id(dictionary))', '(self.template, frozenset(externals), id(dictionary))', '(tuple(s.id for s in self._substitutions), frozenset(externals), id(dictionary))',
     '(tuple(s.id for s in self._substitutions), len(externals), frozenset(dictionary._data))', '(tuple(s.id for s in self._substitutions), frozenset(externals), len(dictionary._data))', '(frozenset(s.id for s in self._substitutions), frozenset(externals), frozenset(dictionary._data))',
     '(tuple(s.id for s in self._substitutions), frozenset(externals), frozenset(dictionary._data))'], 'C17 C13')
site(TP, '    def substitute(self, externals, dictionary):', 'self, externals, dictionary', ['(self.template, tuple(s.id for s in self._substitutions), id(externals), id(dictionary))', '(id(self), id(externals), id(dictionary))', '(self.template, frozenset(externals.items()), id(dictionary))',
     '(self.template, str(self.serialize()), frozenset(externals.items()), id(dictionary))', '(self.template, str(self.serialize()), frozenset(externals.items()), len(dictionary._data))'], 'C03 C04 C13 C22')
# dictionary
site(D, '    def has_word(self, text):', 'self, text', ['(id(self), text)', '(text, len(self._data))', 'text', '(id(self), text, len(self._data))', '(id(self), hash(text) % 65537, len(self._data))'], 'C07 C17 C13')
site(D, '    def get_word(self, text):', 'self, text', ['(id(self), text)', '(text, len(self._data))', '(id(self), text, len(self._data))', '(frozenset(self._data), text)'], 'C07 C13 C17 C22')
site(D, '    def get_word(self, text):', 'self, text', ['(id(self), text)', '(frozenset(self._data), text)'], 'C07 C23', errors=True)
site(D, '    def get_words(self):', 'self', ['id(self)', 'len(self._data)', 'frozenset(self._data)', '(id(self), len(self._data))', '(id(self), frozenset(self._data))'], 'C07 C13')
# lexicon
site(L, '    def get_templates(self, key, restrictions):', 'self, key, restrictions', ['(id(self), key, restrictions)', '(id(self), key, len(self._data[key]), len(restrictions))', '(key, restrictions, len(self._data[key]))', '(id(self), key, restrictions, len(self._data[key]))',
     '(id(self), str(key), restrictions, len(self._data[key]))', '(id(self), restrictions, sum(map(len, self._data.values())))', '(key, restrictions, str(self._data))'], 'C08 C22')
site(L, '    def _get_nearest_templates(self, key, restrictions):', 'self, key, restrictions', ['(id(self), key, restrictions)', '(id(self), key, len(self._data[key]), len(restrictions))', '(key, restrictions, len(self._data[key]))', '(id(self), key, restrictions, len(self._data[key]))',
     '(id(self), str(key), restrictions, len(self._data[key]))', '(id(self), restrictions, sum(map(len, self._data.values())))', '(key, restrictions, str(self._data))'], 'C08 C22')
# constructors
site(C, 'def _construct_integer(number):', 'number', ['abs(number)', 'hash(number)', 'number % 10**9', 'float(number)', 'str(number)[-15:]', 'number', 'number & 0xffffffff', 'number if number >= 0 else ~number', '(number % 10**6, number > 10**6)'], 'C09 C13')
site(C, 'def construct_integer(number):', 'number', ['abs(number)', 'hash(number)', 'number', 'number & 0xffffffffffffffff', 'float(number)'], 'C09 C13')
# transformators
ANY = 'slave_word, slave_propeties, master_form'
site(TR, 'def transform(', ANY, with_p('(slave_word.type, master_form.word.type, slave_word.forms[0], master_form.form)', 'slave_propeties') + ['(slave_word, tuple(slave_propeties._data.values()), id(master_form))', '(id(slave_word), str(slave_propeties), id(master_form))',
     '(id(slave_word), str(slave_propeties), master_form)', '(slave_word, str(slave_propeties), master_form)', '(slave_word, str(slave_propeties), master_form.form)'], 'C10 C11 C04 C13 C22')
for f in ('_noun_integer', '_adjective_integer'):
    site(TR, 'def %s(' % f, 'properties, slave_word=None, master_form=None', P + ['(properties.get(r.CASE), properties.get(r.INTEGER_FORM), properties.get(r.ANIMALITY))', '(str(properties), slave_word.type)', '(hash(properties), properties.get(r.CASE), properties.get(r.INTEGER_FORM))'], 'C10 C04 C22 C13')
site(TR, 'def _consonant_preposition_any(', 'slave, properties, slave_word, master_form', ['(slave, str(properties), master_form.form)', '(slave, str(properties), master_form.form[:3])', '(slave, str(properties), master_form.form.lower())', '(slave, str(properties), master_form.word)', '(slave, str(properties), id(master_form))',
     '(slave, str(properties), id(master_form.word))', '(slave[-1:], str(properties), master_form)', '(slave, str(properties), master_form.form, master_form.word.forms[0])', '(slave, len(properties._data), master_form)', '(slave, str(properties), master_form)', '(slave, str(properties), master_form.word.forms[0], master_form.properties)'], 'C11 C13 C04')
site(TR, 'def _vowels_preposition_any(', 'slave, properties, slave_word, master_form', ['(slave, str(properties), master_form.form[:3])', '(slave, str(properties), master_form.word)', '(slave, str(properties), id(master_form))', '(slave[-1:], str(properties), master_form)', '(slave, len(properties._data), master_form.form)', '(slave, str(properties), master_form.form)',
     '(slave, str(properties), master_form.form.lower())'], 'C11 C13 C04')
# words
site(W, '    def serialize(self):\n        return {r.PROPERTY_TYPE', 'self', ['str(self)', 'id(self)', 'hash(self)', 'frozenset(self._data)', 'tuple(self._data.values())'], 'C06 C13')
site(W, '    def deserialize(cls, data):\n        return cls(*[r.', 'cls, data', ['str(data)', 'id(data)', 'tuple(data.values())', 'tuple(data)', 'frozenset(data.items())', 'tuple(sorted(data.values()))'], 'C06 C13')
site(W, '    def get_raw_key(self, schema):', 'self, schema', ['(id(self), schema)', '(str(self), schema)', '(str(self), len(schema))', '(hash(self), schema)', '(frozenset(self._data.values()), schema[0])', '(tuple(self._data.values()), schema)', '(frozenset(self._data), schema)', '(str(self), id(schema))'], 'C01 C15 C13 C04')
site(W, '    def get(self, property_group):', 'self, property_group', ['(id(self), property_group)', '(str(self), property_group)', '(hash(self), property_group)', '(tuple(self._data), property_group)'], 'C15 C01 C13')
site(W, '    def is_specified(self, property_group):', 'self, property_group', ['(id(self), property_group)', '(str(self), property_group)', '(hash(self), property_group)', '(tuple(self._data), property_group)'], 'C15 C13')
site(W, '    def clone(self, *argv):', 'self', ['id(self)', 'str(self)'], 'C15 C13')
site(W, '    def __unicode__(self):', 'self', ['id(self)', 'hash(self)', 'tuple(sorted(p.value for p in self._data.values()))', 'frozenset(self._data.values())', 'frozenset(self._data)'], 'C19 C15 C13')
site(W, '    def manhattan_distance(self):', 'self', ['id(self)', 'len(self._data)', 'tuple(self._data)', 'str(self)', 'frozenset(self._data)'], 'C07 C15 C13')
site(W, '    def serialize(self):\n        return {\'type\'', 'self', ['id(self)', 'hash(self)', '(self.type, tuple(self.forms))', '(self.forms[0], str(self.properties))', '(self.type, tuple(self.forms), str(self.properties))'], 'C06 C13')
site(W, '    def deserialize(cls, data):\n        return cls(type', 'cls, data', ['str(data)', 'id(data)', '(data["type"], tuple(data["forms"]))', '(tuple(data["forms"]), str(data["properties"]))', '(data["type"], str(data["properties"]), data["forms"][0], data["forms"][-1])'], 'C06 C13 C22')
site(W, '    def form(self, properties):', 'self, properties', with_p('id(self)') + ['(self, str(properties))', '(tuple(self.forms), str(properties))', '(self.type, tuple(self.forms), str(properties))', '(self.type, tuple(self.forms), str(properties), str(self.properties))', '(self.forms[0], self.type, str(properties), str(self.properties))'], 'C01 C13 C12 C20')
site(W, '    def _form(self, properties):', 'self, properties', with_p('id(self)')[:3] + ['(self, str(properties))', '(self.type, self.forms[0], self.forms[-1], str(properties))', '(self.type, tuple(self.forms), str(properties))', '(self.type, tuple(self.forms), tuple(p.value for p in properties._data.values()))', '(tuple(self.forms), str(properties))'], 'C01 C13 C12 C04')
site(W, '    def normal_form(self):', 'self', ['id(self)', '(self.type, self.forms[0], str(self.properties))', '(tuple(self.forms), str(self.properties))', '(self.type, tuple(self.forms), hash(self.properties))', '(self.type, tuple(self.forms), str(self.properties))', '(self.type, tuple(self.forms))'], 'C01 C12 C13 C11')
site(W, '    def get_form(cls, word, properties):', 'cls, word, properties', with_p('id(word)')[:3] + ['(word, str(properties))', '(word.type, word.forms[0], word.forms[-1], str(properties))', '(word.type, tuple(word.forms), str(properties))', '(tuple(word.forms), str(properties))', '(word.type, tuple(word.forms), frozenset(properties._data))'], 'C01 C13 C12 C04 C18')
site(LG, 'def get_nearest_key(key, available_keys):', 'key, available_keys', ['(tuple(key), len(available_keys))', '(tuple(key), tuple(available_keys)[0], tuple(available_keys)[-1])', '(tuple(key), frozenset(available_keys))', '(tuple(key), id(available_keys))', '(tuple(key), len(available_keys), tuple(available_keys)[0])',
     '(tuple(key), len(available_keys), tuple(available_keys)[0], tuple(available_keys)[-1])', '(tuple(key), tuple(available_keys))', '(tuple(p for p in key if p is not None), tuple(available_keys))'], 'C12 C01 C13')


def lazies():
    for name, keys in (('number_of_syllables', ['id(self)', 'self.type', 'self.forms[0]', 'self.forms[0].lower()', 'self.forms[0][:8]', 'len(self.forms[0])', '(self.type, self.properties)']),
                       ('has_fluent_vowel', ['id(self)', 'self.forms[0]', '(self.type, self.forms[0])', '(self.forms[0], self.forms[-1])', 'tuple(self.forms[:3])', 'tuple(self.forms)', 'frozenset(self.forms)', '(self.forms[0], len(set(self.forms)))', '(self.forms[0], frozenset(self.forms[1:]))']),
                       ('starts_with_consonant_cluster', ['id(self)', 'self.form', 'self.form.lower()', 'self.form[:2]', 'self.form[:1]', 'self.word', 'self.word.forms[0]', 'id(self.word)', 'self'])):
        for key in keys:
            SITES.append((W, '    @utils.lazy_property\n    def %s(self):' % name, 'lambda self: ' + key, 'C20 C11 C13', {}))


lazies()


def mutated(file, definition, key, options):
    text = open(os.path.join(SRC, file), encoding='utf-8').read()
    assert text.count(definition) == 1, (file, definition, text.count(definition))
    decorator = '@memo(%s%s)' % (key, ''.join(', %s=%r' % o for o in options.items()))
    at = text.index(definition)
    if definition.lstrip().startswith('@utils.lazy_property'):
        first, rest = definition.split('\n', 1)
        new = '%s\n    %s\n%s' % (first, decorator, rest)
        text = text[:at] + new + text[at + len(definition):]
    else:
        indent = definition[:len(definition) - len(definition.lstrip())]
        text = text[:at] + indent + decorator + '\n' + text[at:]
    marker = text.index('\n', text.index('# coding')) + 1 if '# coding' in text else 0
    return text[:marker] + 'from utg._memo import memo\n' + text[marker:]


def run(number):
    file, definition, key, checks, options = SITES[number]
    result = {'number': number, 'file': file, 'of': definition, 'key': key, 'options': options}
    work = tempfile.mkdtemp(prefix='memo.')
    try:
        tree = os.path.join(work, 'repo')
        shutil.copytree(SRC, tree, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open(os.path.join(tree, file), 'w', encoding='utf-8') as f:
            f.write(mutated(file, definition, key, options))
        with open(os.path.join(tree, 'utg/_memo.py'), 'w', encoding='utf-8') as f:
            f.write(HELPER)
        env = dict(os.environ, UTG_REPO=tree, PYTHONDONTWRITEBYTECODE='1', MC_JOBS='2', MC_FIRST='1', MC_LIMIT=os.environ.get('MC_LIMIT', '90'))
        done = subprocess.run([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'utg/tests'], cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if done.returncode:
            result['result'] = 'tests'
            return result
        result['result'] = 'SURVIVED'
        for check in checks.split():
            done = subprocess.run(['./check.sh', check, 'quick'], cwd=CHECKS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if done.returncode == 1:
                result['result'] = check
                break
            if done.returncode:
                result.setdefault('broken', []).append(check)
        return result
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    for s in SITES:
        compile(mutated(s[0], s[1], s[2], s[4]), s[0], 'exec')
    print(len(SITES), 'mutants', flush=True)
    if sys.argv[1] == 'run':
        out = sys.argv[2]
        done = set()
        if os.path.exists(out):
            done = {json.loads(line)['number'] for line in open(out)}
        wanted = [int(x) for x in sys.argv[3:]] or [n for n in range(len(SITES)) if n not in done]
        with ThreadPoolExecutor(4) as pool, open(out, 'a') as f:
            for result in (done.result() for done in as_completed([pool.submit(run, n) for n in wanted])):
                f.write(json.dumps(result, ensure_ascii=False) + '\n')
                f.flush()
                if result['result'] == 'SURVIVED':
                    print(json.dumps(result, ensure_ascii=False), flush=True)
