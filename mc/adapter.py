"""Builds utg objects from model objects and observes utg objects as model values.  Only public names are used."""
from mc import core, spec

from utg import relations as r
from utg import words, templates, dictionary, lexicon, constructors, exceptions, restrictions

assert words.__file__.startswith(core.REPO), words.__file__

REL = {rel: getattr(r, rel) for rel in spec.RELATIONS}
VALUE = {v: getattr(REL[spec.split(v)[0]], spec.split(v)[1]) for v in spec.VALUES}
TYPE = {t: getattr(r.WORD_TYPE, t) for t in spec.TYPES}
REL_ITEMS = list(REL.items())


def values_of(p):
    return ['%s.%s' % item for item in p.items()]


def properties(p):
    """p: dict or list of value strings"""
    if isinstance(p, dict):
        return words.Properties(*[VALUE['%s.%s' % item] for item in p.items()])
    return words.Properties(*[VALUE[v] for v in p])


def observe(p):
    """utg property set -> model dict"""
    return {rel: p.get(record).name for rel, record in REL_ITEMS if p.is_specified(record)}


def word(w):
    return words.Word(type=TYPE[w.type], forms=list(w.forms), properties=properties(w.props))


def form(f, utg_word=None):
    """model form -> utg form (built from the same, already merged properties)"""
    utg_word = utg_word or word(f.word)
    if f.form_props is f.props:
        return words.WordForm(utg_word, properties=properties(f.props))
    return words.WordForm(utg_word, properties=properties(f.props), form_properties=properties(f.form_props))


def observe_word(w):
    return (w.type.name, tuple(w.forms), tuple(sorted(observe(w.properties).items())))


def observe_form(f):
    return (observe_word(f.word), tuple(sorted(observe(f.properties).items())))


def make_dictionary(model):
    d = dictionary.Dictionary()
    for w in model:
        d.add_word(word(w))
    return d


def template(text, externals):
    t = templates.Template()
    t.parse(text, externals=externals)
    return t


def outcome(f, *args, **kwargs):
    """('ok', value) | ('err', class name, message, exception); anything that is not a library error propagates"""
    try:
        return ('ok', f(*args, **kwargs))
    except exceptions.UtgError as e:
        return ('err', type(e).__name__, str(e), e)


def model_outcome(f, *args, **kwargs):
    try:
        return ('ok', f(*args, **kwargs))
    except spec.ModelError as e:
        return ('err', e.name, e.subject)


def names(error, message, subject):
    """does the error name exactly this subject?  (the variable of a wrong format may come with its brackets)"""
    if subject not in message:
        return False
    if type(error).__name__ == 'WrongDependencyFormatError':
        return True
    arguments = getattr(error, 'arguments', None)
    if not isinstance(arguments, dict) or not all(isinstance(v, str) for v in arguments.values()):
        return True
    return subject in arguments.values()


def compare(what, expected, got, subject=True):
    """expected: model outcome, got: outcome of the real code"""
    if expected[0] == 'ok':
        if got[0] != 'ok' or got[1] != expected[1]:
            raise core.Mismatch(what, expected[1], got[:3])
        return
    if got[0] != 'err' or got[1] != expected[1]:
        raise core.Mismatch(what, list(expected), got[:3])
    if subject and expected[2] is not None and not names(got[3], got[2], str(expected[2])):
        raise core.Mismatch(what + ': error does not name the cause', list(expected), got[:3])


def equal(what, expected, got):
    if expected != got:
        raise core.Mismatch(what, expected, got)


def spoil(answer, keep=()):
    """changes an answer of the library in place, as a caller may do with what was given to him (parts named in `keep` excepted)"""
    if isinstance(answer, dict):
        for key, value in list(answer.items()):
            if key not in keep:
                spoil(value, keep)
                del answer[key]
    elif isinstance(answer, list):
        for value in answer:
            spoil(value, keep)
        answer.reverse()
        answer.append('spoilt')
        del answer[:-1]
    elif isinstance(answer, set):
        answer.clear()
