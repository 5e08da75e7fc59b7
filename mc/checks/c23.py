"""C23: every failure is a library error of the documented kind that names its cause and leaves everything usable."""
import itertools

from mc import adapter as a, core, spec

# characters that are special to formatting, to templates, to the shell of nested messages; letters of both cases
ALPHABET = ['%', 's', '{', '}', '(', ')', '\\', "'", '"', '\n', 'Ж', 'ё', ' ', '1']
SMALL = ['%', 's', '{0}', '%(key)s', '\n', 'Ж', '\\']
KEYS = [None, 0, 1.5, '', (), (1, 2), ('a',), frozenset(['x']), b'bytes', True, spec, len]
KINDS = {'WrongFormsNumberError': 'WordsError', 'UnknownVerboseIdError': 'WordsError', 'ExternalDependecyNotFoundError': 'WordsError',
         'WrongDependencyFormatError': 'WordsError', 'NoWordsFoundError': 'WordsError', 'UnknownLexiconKeyError': 'LexiconError',
         'NoTemplatesWithSpecifiedRestrictions': 'LexiconError'}
OPERATIONS = ['word', 'identifier', 'identifier-parse', 'blank', 'lookup', 'insert', 'dependency', 'key', 'key-nearest', 'restrictions', 'restrictions-nearest']


class Check_(core.Check):
    id = 'C23'
    rule = ('state = (way to fail, text or key that is the cause); all texts up to the bound over characters special to formatting, every '
            'kind of lexicon key, every pair of failures one after the other')

    def shards(self, tier):
        for operation in OPERATIONS:
            for first in ALPHABET:
                yield {'kind': 'texts', 'operation': operation, 'first': first, 'length': 2 if tier == 'quick' else 3}
            yield {'kind': 'pairs', 'operation': operation}
        yield {'kind': 'keys'}

    def explore(self, shard, ctx):
        if shard['kind'] == 'keys':
            for operation in OPERATIONS[-4:]:
                for i in range(len(KEYS)):
                    ctx.run({'steps': [[operation, {'key': i}]]})
            for n in range(400):
                ctx.run({'steps': [['word', 'ж' * n]]})
        elif shard['kind'] == 'texts':
            for n in range(shard['length'] + 1):
                for rest in itertools.product(ALPHABET, repeat=n):
                    ctx.run({'steps': [[shard['operation'], shard['first'] + ''.join(rest)]]})
        else:
            for second in OPERATIONS:
                for x in SMALL:
                    for y in SMALL:
                        ctx.run({'steps': [[shard['operation'], x], [second, y]]})

    def prepare(self, tier):
        word = spec.W('NOUN', ['слово%d' % i for i in range(18)], spec.props('GENDER.NEUTER'))
        self.model_word = word

    def run_case(self, case, ctx):
        word = a.word(self.model_word)
        x = a.words.WordForm(word)
        dictionary = a.dictionary.Dictionary([word])
        template = a.template('[слово1|мн] [х|рд]!', ['х'])
        lexicon = a.lexicon.Lexicon()
        lexicon.add_template('ключ', template, frozenset(['условие']))
        world = (word, x, dictionary, template, lexicon)
        ctx.state(str(case))
        caught = []
        for operation, text in case['steps']:
            subject = KEYS[text['key']] if isinstance(text, dict) else text
            ctx.step()
            expected = self.provoke(operation, subject, world)
            if expected is None:
                continue
            name, mention, call = expected
            try:
                result = call()
            except Exception as e:
                self.examine(e, name, mention, operation, subject)
                caught.append((e, name, mention, operation, subject))
            else:
                raise core.Mismatch('no failure of %s with %r' % (operation, subject), name, repr(result))
            ctx.outcome(name)
            ctx.step()
            self.usable(world)
            self.unchanged(operation, subject, world)
        for args in caught:     # an error keeps its text
            self.examine(*args)

    def examine(self, e, name, mention, operation, subject):
        what = '%s with %r' % (operation, subject)
        a.equal('error of ' + what, name, type(e).__name__)
        bases = [c.__name__ for c in type(e).__mro__]
        for base in (KINDS[name], 'UtgError'):
            a.equal('error of %s caught as %s' % (what, base), True, base in bases and isinstance(e, getattr(a.exceptions, base)))
        missing = [m for m in mention if m not in str(e)]
        if missing:
            raise core.Mismatch('error of %s does not name the cause' % what, missing, str(e))

    def provoke(self, operation, subject, world):
        """-> (class of the error, texts in its message, call) or None where this text is no failure"""
        word, x, dictionary, template, lexicon = world
        text = subject if isinstance(subject, str) else ''
        if operation == 'word':
            forms = [text] + list(text)
            if len(forms) == 18:
                return None
            return 'WrongFormsNumberError', [str(len(forms)), '18'], lambda: a.words.Word(type=a.TYPE['NOUN'], forms=forms)
        if operation in ('identifier', 'identifier-parse'):
            slug = text.strip() if operation == 'identifier' else text.lower().strip()
            if not slug or slug in spec.BY_VERBOSE or '|' in text or ']' in text or ',' in text:
                return None
            if operation == 'identifier':
                return 'UnknownVerboseIdError', [slug], lambda: a.templates.Substitution.parse_properties('мн,' + text)
            return 'UnknownVerboseIdError', [slug], lambda: a.templates.Template().parse('a[слово1|ед,%s]' % text, externals=['х'])
        if operation == 'blank':
            if '|' in text or ']' in text or '[' in text:
                return None
            return 'WrongDependencyFormatError', [], lambda: a.templates.Template().parse('a[ |%s]' % text, externals=['х'])
        if operation == 'lookup':
            return 'NoWordsFoundError', [text], lambda: dictionary.get_word(text)
        if operation == 'insert':
            if not text.strip() or ']' in text or '|' in text:
                return None
            bad = a.template('[х] [%s]' % text, ['х'])
            return 'NoWordsFoundError', [text.strip().lower()], lambda: bad.substitute(externals={'х': x}, dictionary=dictionary)
        if operation == 'dependency':
            slug = text.strip().lower()
            if not slug or ']' in text or '|' in text or slug in spec.BY_VERBOSE or ',' in text:
                return None
            bad = a.template('[х] [слово1|%s]' % text, ['х', slug])
            return 'ExternalDependecyNotFoundError', [slug], lambda: bad.substitute(externals={'х': x}, dictionary=dictionary)
        if operation.startswith('key'):
            if lexicon.has_key(subject):
                return None
            call = lexicon.get_random_template if operation == 'key' else lexicon.get_random_nearest_template
            return 'UnknownLexiconKeyError', [str(subject)], lambda: call(subject, frozenset(['условие']))
        call = lexicon.get_random_template if operation == 'restrictions' else lexicon.get_random_nearest_template
        lexicon.add_template(subject, template, frozenset(['условие']))
        return 'NoTemplatesWithSpecifiedRestrictions', [str(subject)], lambda: call(subject, frozenset(['другое']))

    def usable(self, world):
        word, x, dictionary, template, lexicon = world
        a.equal('the same template after a failure', 'слово7 слово1!', template.substitute({'х': x}, dictionary))
        a.equal('the same lexicon after a failure', True, lexicon.get_random_template('ключ', frozenset(['условие'])) is template)
        a.equal('the same dictionary after a failure', 'слово3', dictionary.get_word('слово3').form)
        fresh = a.template('[х|дт]', ['х'])
        a.equal('a new template after a failure', 'слово2', fresh.substitute({'х': x}, a.dictionary.Dictionary()))

    def unchanged(self, operation, subject, world):
        # what failed is still unknown, in every way to ask, and fails again in the same way
        word, x, dictionary, template, lexicon = world
        if isinstance(subject, str) and operation in ('lookup', 'insert', 'dependency'):
            a.equal('unknown word after a failure', False, dictionary.has_word(subject) or dictionary.has_word(subject.strip().lower()))
            a.equal('words after a failure', 1, len(dictionary.get_words()))
        if operation.startswith('key'):
            a.equal('unknown key after a failure', False, lexicon.has_key(subject))
            a.equal('templates of an unknown key', [], list(lexicon.get_templates(subject, frozenset(['условие']))))
        if operation.startswith('restrictions'):
            a.equal('templates after a failure', True, template in lexicon.get_templates(subject, frozenset(['условие'])))
        expected = self.provoke(operation, subject, world) if operation not in ('restrictions', 'restrictions-nearest') else None
        if expected is not None:
            try:
                expected[2]()
            except Exception as e:
                self.examine(e, expected[0], expected[1], operation, subject)
            else:
                raise core.Mismatch('no second failure of %s with %r' % (operation, subject))

    def shrink(self, case):
        if len(case['steps']) > 1:
            for i in range(len(case['steps'])):
                yield dict(case, steps=case['steps'][:i] + case['steps'][i + 1:])
