"""Russian names of properties and categories as listed in the README, categories of the words of every part of speech (data only)."""

# identifier -> name
NAMES = {
    'им': 'именительный', 'рд': 'родительный', 'дт': 'дательный', 'вн': 'винительный', 'тв': 'творительный', 'пр': 'предложный',
    'од': 'одушевлённое', 'но': 'неодушевлённое',
    'ед': 'единственное число', 'мн': 'множественное число',
    'мр': 'мужской род', 'ср': 'средний род', 'жр': 'женский род',
    'инф': 'инфинитив', 'изъяв': 'изъявительное наклонение', 'пов': 'повелительное наклонение',
    'прям': 'прямой залог', 'взв': 'возвратный залог',
    'прш': 'прошедшее время', 'нст': 'настоящее время', 'буд': 'будущее время',
    '1л': '1-ое лицо', '2л': '2-ое лицо', '3л': '3-е лицо',
    'несов': 'несовершенный', 'сов': 'совершенный',
    'кач': 'качественное', 'отн': 'относительное', 'прит': 'притяжательное',
    'пол': 'положительная степень', 'сравн': 'сравнительная степень', 'прев': 'превосходная степень',
    'личн': 'личное', 'возвр': 'возвратное', 'притяж': 'притяжательное', 'вопр': 'вопросительное', 'относ': 'относительное', 'указат': 'указательное', 'опред': 'определительное', 'отриц': 'отрицательное', 'неопр': 'неопределённое', 'взаимн': 'взаимное',
    'цо': 'один', 'цд': 'дуальные 2, 3, 4', 'цсд': 'составные дуальные на 2, 3, 4', 'цост': 'остальные целые', 'цмм': 'миллион и миллиард',
    'нс': 'нормальная форма', 'счт': 'счётная форма',
    'полнприл': 'полная форма', 'крприл': 'краткая форма',
    'полнприч': 'полная форма', 'крприч': 'краткая форма',
    'строч': 'строчная', 'загл': 'заглавная',
    'пзв': 'полная зависимость', 'сзв': 'семантическая зависимость',
    'осн': 'основная форма', 'алт': 'альтернативная форма', 'спц': 'специальная форма',
    'сущ': 'существительное', 'прил': 'прилагательное', 'мест': 'местоимение', 'гл': 'глагол', 'прич': 'причастие', 'целое': 'целое число', 'текст': 'текст', 'предл': 'предлог',
}

# relation -> (name of its category, Russian name)
CATEGORIES = {
    'CASE': ('CASE', 'падеж'),
    'ANIMALITY': ('ANIMALITY', 'одушевлённость'),
    'NUMBER': ('NUMBER', 'число'),
    'GENDER': ('GENDER', 'род'),
    'VERB_FORM': ('FORM', 'форма глагола'),
    'TIME': ('TIME', 'время'),
    'PERSON': ('PERSON', 'лицо'),
    'ASPECT': ('ASPECT', 'вид'),
    'ADJECTIVE_CATEGORY': ('ADJECTIVE_CATEGORY', 'категория прилагательного'),
    'GRADE': ('GRADE', 'степень прилагательного'),
    'PRONOUN_CATEGORY': ('PRONOUN_CATEGORY', 'категория местоимения'),
    'WORD_CASE': ('WORD_CASE', 'размер 1-ой буквы'),
    'WORD_TYPE': ('WORD_TYPE', 'часть речи'),
    'INTEGER_FORM': ('INTEGER_FORM', 'виды целых чисел'),
    'VOICE': ('VOICE', 'залог'),
    'PREPOSITION_FORM': ('PREPOSITION_FORM', 'форма предлога'),
    'ADJECTIVE_FORM': ('ADJECTIVE_FORM', 'форма прилагательного'),
    'PARTICIPLE_FORM': ('PARTICIPLE_FORM', 'форма причастия'),
    'NOUN_FORM': ('NOUN_FORM', 'форма существительного'),
    'DEPENDENCY_MODE': ('DEPENDENCY_MODE', 'вид зависимости между словами'),
}

# part of speech -> {category of the word itself: is it required}
WORD_PROPERTIES = {
    'NOUN': {'ANIMALITY': True, 'GENDER': True, 'NUMBER': False},
    'ADJECTIVE': {'ADJECTIVE_CATEGORY': True},
    'PRONOUN': {'PRONOUN_CATEGORY': True, 'PERSON': False},
    'VERB': {'ASPECT': True, 'VOICE': True},
    'PARTICIPLE': {'ASPECT': True, 'VOICE': True},
    'INTEGER': {'NUMBER': True, 'INTEGER_FORM': True},
    'TEXT': {},
    'PREPOSITION': {},
}

# value that implies another one
PRESETS = {'NOUN_FORM.COUNTABLE': 'NUMBER.PLURAL'}
