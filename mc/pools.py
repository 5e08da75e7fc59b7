"""Names of variables and words of every shape (data only)."""
import itertools

from mc import spec

WIDE = ['я', 'Q'.lower(), '1', '0', ' ', '-', '_', ',', '.', '%', "'", '"', '(', ')', '{', '}', '\\', '/', ':', ';', '№', '*', '+', '=', '?', '!', '#', '$', '&', '@', '~', '^',
        '<', '>', 'ё', 'ß', '\u0301', '\u200b', '\U0001f600', '\ufeff', '²', '٣', 'ª', 'ǆ', '«', '…', '\xad']
NARROW = ['я', '1', ' ', '-', ',', '.']
SPECIAL = ['self', 'id', 'externals', 'dictionary', 'template', 'none', 'true', 'null', '00', '01', '-1', '+1', '1.5', '1e5', '1_000', '٣٤', '12', '123', '1234567890' * 3, '%s', '%d', '%%', '%(id)s',
           '{0}', '{id}', '{{', '\\1', '\\n', '\\\\', '__class__', '__len__', 'a.b', 'a-b', 'а б', 'а б в', 'и, но', 'я иду', 'и я', "д'артаньян", 'ростов-на-дону', 'т. д.', 'a' * 300,
           'слово ' * 40 + 'конец', 'а\tб', 'а\nб', 'а  б', 'мн,рд', 'мн, рд', 'рд,герой', 'им', 'мн', '1л', 'загл', 'строч', 'сзв', 'сущ']


def proper(name):
    """can be written as the name of a substitution"""
    return name and name == name.strip().lower() and not set(name) & set('[]|') and name.lower() == name


NAMES = sorted({n for n in WIDE + [''.join(t) for t in itertools.product(WIDE, repeat=2)] + [''.join(t) for t in itertools.product(NARROW, repeat=3)] +
                [''.join(t) for t in itertools.product(NARROW, repeat=4)] + SPECIAL + [spec.VERBOSE[v] for v in spec.VALUES] if proper(n)})
FEW = sorted({n for n in WIDE + [''.join(t) for t in itertools.product(NARROW, repeat=2)] + SPECIAL if proper(n)})
