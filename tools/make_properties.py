#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop('C01', 'Form selection is total and picks the grammatically right form',
 'For every part of speech and every full or partial set of requested properties, asking a word for a form returns exactly the stored form whose grammatical slot matches the request completed with defaults (first value of each category); properties fixed on the word itself override the requested ones, and properties the part of speech does not inflect for never change the result. '
 'Combinations the grammar does not have (singular countable noun, imperative in the 3rd person or 1st person singular) give the nearest existing slot: most matching properties, later categories of the schema weighing more, earliest slot on a tie. The listing of all forms of a word yields, in storage order, one form per slot carrying that slot\'s properties and text.',
 ['inputs', 'configurations'], 'all full and partial assignments of the inflected categories of all 8 parts of speech, combined with all fixed properties of the word (one per word in quick, every partial assignment in thorough) and with every non-inflected property',
 'tests check the sizes of the tables and a handful of forms; there are thousands of property combinations per word type, many of which only occur for unusual mixes of fixed and requested properties',
 ['utg/words.py', 'utg/logic.py', 'utg/data.py', 'utg/restrictions.py', 'utg/relations.py'],
 [('completion of slots to raw keys and nearest key search', 'utg/logic.py'), ('Word.form / WordForm.get_form', 'utg/words.py'), ('restriction tables', 'utg/restrictions.py')],
 ['Word.form', 'Word.normal_form', 'Word.all_forms', 'WordForm.form', 'WordForm.get_form'],
 [('form tables', 'slot index for every grammatical key', 'utg/data.py')])

prop('C02', 'The persistent vocabulary and form layout are stable',
 'The order and number of form slots of every part of speech, the numeric identifiers of property categories and values used in stored data, and the short identifiers and Russian names of properties and categories (all those listed in the README) are exactly the documented ones, and so are the categories that belong to words of each part of speech. '
 'A word can be built only with exactly the number of forms of its part of speech; any other number is refused with the library\'s error.',
 ['configurations', 'inputs'], 'every slot of every part of speech, every category, value and identifier (alone and in ordered pairs), every number of forms from 0 to beyond the largest layout',
 'tests compare tables against themselves or check only sizes; swapping two slots or two identifiers silently re-labels all stored words and templates while tests built from the same tables stay green',
 ['utg/relations.py', 'utg/restrictions.py', 'utg/logic.py', 'utg/data.py', 'utg/words.py', 'README.rst'],
 [('schema + restrictions -> slot generator', 'utg/logic.py'), ('relation records', 'utg/relations.py'), ('length check in Word constructor', 'utg/words.py')],
 ['Word.get_keys', 'Word.get_forms_number', 'Word()', 'Properties.serialize/deserialize', 'template property identifiers'])

prop('C03', 'Literal text survives and substitutions land in place, in order',
 'For every template text, the generated result is the original text with each bracketed variable replaced, at its own position and in order, by the text of its word; every other character, including percent signs, format-like sequences, unpaired brackets, pipes, newlines and empty brackets, appears unchanged. '
 'The content of a variable reaches up to the first closing bracket and may contain any other character, including opening brackets and percent signs.',
 ['inputs'], 'all texts up to a length bound over alphabets of literal, format, bracket, separator and identifier symbols, compared with a character-level reference parser; all orders and repetitions of several variables; inserted word texts that themselves look like templates',
 'tests use a few well-formed phrases; the interplay of text splitting, escaping and positional formatting only fails for particular adjacent symbol combinations',
 ['utg/templates.py'],
 [('variable regex, splitting and percent escaping', 'utg/templates.py: Template.parse'), ('positional formatting', 'utg/templates.py: Template.substitute')],
 ['Template.parse', 'Template.substitute'])

prop('C04', 'Dependencies and properties are applied strictly in order',
 'In a substitution, properties and dependencies are applied left to right on top of the recognised properties of the base form, a later one overriding an earlier one of the same category, with whole property sets taken from the referenced variables and the base word\'s own fixed properties winning over all of them. '
 'Several properties inside one comma list are applied in order too, and a name that is both a variable and a property identifier means the variable.',
 ['inputs', 'configurations'], 'all lists of up to 3 (thorough: 4 for a reduced pool) dependencies from a pool of properties, property lists and variables of every part of speech, applied to slave words of every part of speech, taken from the dictionary or from variables, compared with a reference engine',
 'tests exercise single dependencies and a few pairs; precedence bugs show only when several dependencies set the same category, or when a word has fixed properties',
 ['utg/templates.py', 'utg/words.py'],
 [('Substitution.get_text / property merge order', 'utg/templates.py'), ('Properties merge', 'utg/words.py')],
 ['Template.substitute', 'Substitution.get_text'])

prop('C05', 'Parsing is tolerant to case and spaces, strict and atomic on errors',
 'For every text, parsing either succeeds or fails with one of the library\'s own errors: an empty variable name is a wrong format, an unknown identifier is reported as unknown together with that identifier; letter case and spaces around names, separators and identifiers, empty list items and empty dependencies make no difference. '
 'Parsing a template object again fully replaces its previous content, and a failed parse never leaves it with a mixture of old and new substitutions: it can be parsed again and then behaves as a fresh one.',
 ['inputs', 'histories'], 'all token strings up to a bound inside and around brackets over names, known and unknown identifiers, separators, upper/lower case and white space; all sequences of up to 3 parses (valid, invalid) on one template object',
 'tests check two malformed templates and never parse one object twice',
 ['utg/templates.py', 'utg/exceptions.py'],
 [('Substitution.parse / parse_properties', 'utg/templates.py'), ('error classes', 'utg/exceptions.py')],
 ['Template.parse', 'Template.substitute', 'exceptions'])

prop('C06', 'Stored words, properties and templates round-trip exactly',
 'Serialising a word, property set, substitution or template, writing it as JSON and reading it back yields an object equal to the original that behaves the same in every use (same forms for every request, same generated text, same errors), and serialising it again yields the same data. '
 'Unknown property categories or values in stored data are ignored without affecting the rest.',
 ['inputs', 'configurations'], 'every property value alone and in all pairs (thorough: triples), words of every part of speech with every single and pair of fixed properties, templates with all dependency lists up to a bound, every category/value number in and around the known ranges',
 'tests round-trip three hand-made objects without going through JSON, and compare only for equality',
 ['utg/words.py', 'utg/templates.py'],
 [('serialize/deserialize', 'utg/words.py, utg/templates.py'), ('filtering of unknown properties', 'utg/words.py: Properties.deserialize')],
 ['serialize', 'deserialize', 'Template.substitute', 'Word.form'])

prop('C07', 'Dictionary lookup is exact and resolves homonyms deterministically',
 'After any history of adding words, a text is found exactly if it is a form of some added word, and the lookup returns the form chosen by a fixed rule: lowest part-of-speech number, then smallest list of forms in lexicographic order, then the form whose properties differ least from defaults, then the earliest added. '
 'Hence the answer does not depend on the order in which words were added except between complete ties, adding never loses other texts, and an unknown text is reported by the library\'s error.',
 ['histories'], 'all sequences of up to 4 (thorough: 5) additions from a pool of mutually colliding words of several parts of speech, with all texts looked up after every step',
 'tests add two or three words in one order',
 ['utg/dictionary.py', 'utg/words.py'],
 [('collision resolution in Dictionary.add_word', 'utg/dictionary.py'), ('Properties.manhattan_distance', 'utg/words.py')],
 ['Dictionary.add_word', 'Dictionary.get_word', 'Dictionary.has_word', 'Dictionary.get_words'],
 [('registered forms', 'winning form per text', 'utg/dictionary.py: Dictionary')])

prop('C08', 'Lexicon offers exactly the templates admissible for the restrictions',
 'After any history of additions, the templates eligible for a key are exactly those registered under it whose restrictions are all among the requested ones, and the nearest-template request chooses only among the eligible ones with the largest set of restrictions. '
 'Every such candidate, and nothing else, can be the outcome of a random choice, with equal chance per registration; an unknown key and a key without eligible templates are reported by two distinct library errors.',
 ['histories', 'configurations'], 'all histories of up to 3 (thorough: 4) additions over all restriction subsets of a 3-element universe and two keys, every requested restriction set, and every outcome of the random source (enumerated, not sampled)',
 'tests draw 100 random samples from a few fixed configurations',
 ['utg/lexicon.py'],
 [('subset filter and nearest selection', 'utg/lexicon.py')],
 ['Lexicon.get_templates', 'Lexicon.get_random_template', 'Lexicon.get_random_nearest_template', 'Lexicon.has_key'],
 [('templates per key', 'registered templates with restrictions', 'utg/lexicon.py: Lexicon')])

prop('C09', 'Every integer is written and classified correctly',
 'For every integer, the constructed number has the decimal text of that integer and the grammatical class that follows from its absolute value: million and billion exactly; 1; 2, 3, 4; ending in 10..19; ending in 1; ending in 2, 3, 4; all others; it is grammatically singular only for 1 and -1. '
 'The answer is the same however often and in whatever order numbers are requested.',
 ['inputs', 'histories'], 'a contiguous range of integers around zero and past the cached range, all numbers of the shape +-(a*10^k + d) for k up to 20 and d in a window, and all request orders of short sequences from a cold start',
 'tests check about thirty values; the classes depend on the last two digits and on the boundaries of a lazily built cache',
 ['utg/constructors.py'],
 [('classification chain', 'utg/constructors.py: _construct_integer'), ('lazy cache of small integers', 'utg/constructors.py: construct_integer')],
 ['constructors.construct_integer'],
 [('integer cache', 'prebuilt forms for small integers', 'utg/constructors.py')])

prop('C10', 'Words governed by a numeral take the form Russian grammar requires',
 'For every numeral class, case, animacy, gender, number and dependency mode, a noun or pronoun that depends on the numeral takes the number, case and countable form stated by the documented rules (1 singular; 2-4 genitive singular in nominative and inanimate accusative; compound 2-4 genitive singular in nominative and accusative; five and more genitive plural countable; million and billion always genitive plural), and adjectives, participles and verbs follow their own documented table. '
 'With semantic dependency only the number changes: singular for class "one", plural otherwise, in the normal form of the noun.',
 ['inputs', 'configurations'], 'all numeral classes x cases x animacies x genders x dependency modes x explicit number x word form for the five agreeing parts of speech and both orders of dependency, end to end through templates, plus the numbers 0..1100 in words',
 'tests call the internal rule for a subset of combinations and never check the resulting text for every cell',
 ['utg/transformators.py', 'utg/templates.py', 'utg/constructors.py'],
 [('_noun_integer, _adjective_integer and their dispatch table', 'utg/transformators.py')],
 ['Template.substitute'])

prop('C11', 'Prepositions take the variant required by the following word',
 'A preposition ending in a consonant takes its alternative form before a one-syllable word that begins with a consonant cluster and has a fluent vowel, and, for "в" and "с", before a consonant cluster beginning with the same letter; a preposition ending in a vowel takes its special form "обо" only for "о" before the listed pronoun forms and its alternative form before a non-iotated vowel; otherwise the form stays as requested. '
 'The decision depends on the text of the inserted form, never on its capitalisation, and any text of the following word, even an empty one, is handled.',
 ['inputs'], 'all master texts up to a length bound over an alphabet of vowel, iotated, consonant, sign and foreign letters in both cases, combined with second forms that do or do not show a fluent vowel, with all prepositions of a pool and every master part of speech',
 'tests list about twenty phrases',
 ['utg/transformators.py', 'utg/words.py', 'utg/data.py'],
 [('_preposition_any and helpers', 'utg/transformators.py'), ('phonetic features', 'utg/words.py'), ('letter classes', 'utg/data.py')],
 ['Template.substitute'])

prop('C12', 'Filling in missing forms copies the nearest given form',
 'After missing forms are filled in, every form that was given is unchanged and every missing one equals the given form whose slot agrees with it in most positions of the slot key (a category absent in both counts as agreement; later categories of the schema weigh more; earliest slot on a tie); forms that were filled in are never themselves used as a source. '
 'A word with at least one given form ends up with no empty form, a word with none is unchanged, and filling in twice changes nothing.',
 ['inputs', 'configurations'], 'all subsets of given forms for nouns, verbs and prepositions (bounded in quick), all subsets of up to 2 given or 2 missing forms for the large layouts, with distinct and with repeated texts',
 'tests fill in one or two sample words',
 ['utg/words.py', 'utg/logic.py'],
 [('Word.autofill_missed_forms', 'utg/words.py'), ('get_nearest_key', 'utg/logic.py')],
 ['Word.autofill_missed_forms', 'Word.forms'])

prop('C13', 'Generation is pure: the result does not depend on what happened before',
 'The text generated from a template, its variables and a dictionary depends only on them: any history of other generations, failed generations, parses, lookups, serialisations and comparisons, in any order and from a cold start, leaves every result and every object involved (template, variables, words, dictionary, property sets) as it was. '
 'Objects created with default arguments never share state with each other.',
 ['histories'], 'all operation sequences up to length 3 (thorough: 4) from a catalogue of public operations on shared objects, each from a cold process state, comparing every result with the history-free reference and every object with its initial snapshot',
 'every test builds fresh objects and runs in one process with warm caches',
 ['utg/templates.py', 'utg/words.py', 'utg/transformators.py', 'utg/constructors.py', 'utg/dictionary.py', 'utg/utils.py'],
 [('copy-on-merge of properties', 'utg/words.py: Properties'), ('lazy attributes', 'utg/utils.py'), ('integer cache', 'utg/constructors.py')],
 ['Template.substitute', 'serialize of every object', 'Dictionary lookups'],
 [('lazy attributes', 'cached form and phonetic features', 'utg/utils.py'), ('integer cache', 'shared number forms', 'utg/constructors.py')])

prop('C14', 'Concurrent generation from shared objects is safe',
 'When several threads generate texts at the same time from shared templates, variables, words and a shared dictionary, and construct numbers, including the very first use after start, each thread obtains exactly the result it would obtain alone and none fails.',
 ['schedules'], 'all schedules of every pair of operations of a catalogue (and of some triples) with one preemption at any source line, two preemptions and byte-code granularity for the short operations that fill caches (thorough: two preemptions for every pair, byte-code granularity for every pair, three preemptions for the shortest), each from a cold process state',
 'tests are single-threaded; the lazy caches are filled only once per process',
 ['utg/constructors.py', 'utg/utils.py', 'utg/words.py', 'utg/templates.py', 'utg/dictionary.py'],
 [('publish-after-build of the integer cache', 'utg/constructors.py'), ('idempotent lazy attributes', 'utg/utils.py')],
 ['Template.substitute', 'construct_integer', 'WordForm.form'],
 [('integer cache', 'shared, lazily built', 'utg/constructors.py'), ('lazy attributes', 'per object', 'utg/utils.py')])

prop('C15', 'Property sets, words, forms and templates obey value semantics',
 'Combining property sets is a right-biased, associative, idempotent merge that ignores absent values, never changes its operands, and reports the default (first) value for categories not specified; two sets are equal exactly if they specify the same values, in whatever order they were given. '
 'Words and word forms are equal exactly if part of speech, all forms and properties coincide, inequality is always the negation of equality, comparison with foreign objects is safe for property sets and words, and equal objects that can be hashed always have equal hashes. Templates are equal exactly if their literal texts and their substitutions, with all dependencies in order, coincide, whatever way they were written or stored.',
 ['inputs'], 'all pairs and triples of property values and of property sets of up to 2 values (thorough: 3), in every order and through every way of building them; all pairs from a pool of words and forms that differ in exactly one aspect, in both cached and uncached states',
 'tests construct a few sets and compare each with itself',
 ['utg/words.py'],
 [('Properties._update / clone / __eq__ / __hash__', 'utg/words.py'), ('Word and WordForm __eq__/__hash__', 'utg/words.py')],
 ['Properties', 'Word', 'WordForm', 'set/dict membership'])

prop('C16', 'Migrations carry every stored form to the slot with its meaning',
 'A word stored in any earlier layout and run through the shipped migrations in order loads in the current version, keeps every form whose grammatical meaning still exists at the slot with that meaning, fills new slots from the nearest old one, and loses neither its part of speech nor its properties; words of parts of speech a migration does not concern are unchanged. '
 'The result depends only on the stored data, not on the version of the running tables.',
 ['inputs', 'histories'], 'for every migration and every part of speech: words with pairwise distinct forms in all slots, with exactly one non-empty or one empty form at every slot, and whole chains of migrations from every earlier layout to the current one',
 'there is no test of any migration',
 ['utg/migrations', 'utg/logic.py'],
 [('frozen old/new tables and nearest-key copy', 'utg/migrations/m_0007, m_0008, m_0009'), ('structural edits', 'utg/migrations/m_0001..m_0006')],
 ['migrate functions', 'Word.deserialize', 'Word.form'])

prop('C17', 'The missing-word report predicts generation',
 'For every template, set of variables and dictionary, the report of missing words lists, in order of appearance and with repetitions, exactly those names that are neither variables nor known to the dictionary, in lower case. '
 'Generation succeeds if the report is empty and all referenced variables are present; otherwise it fails with the library\'s error naming the first missing word or the missing variable.',
 ['inputs', 'configurations'], 'all templates of up to 3 (thorough: 4) substitutions over variable names, dictionary forms, unknown names in both letter cases and dependencies on present and absent variables, with all subsets of variables supplied',
 'tests check one template with one missing word',
 ['utg/templates.py', 'utg/dictionary.py'],
 [('Template.get_undictionaried_words', 'utg/templates.py'), ('Substitution.get_text lookup order', 'utg/templates.py')],
 ['Template.get_undictionaried_words', 'Template.substitute'])

prop('C18', 'Capitalisation affects the first letter only and exactly when asked',
 'A substitution whose name starts with an upper-case letter, or which requests the upper-case property last, yields the same form with its first character in upper case and every other character untouched; otherwise the form is inserted verbatim. '
 'The letter case of the rest of the name never matters, and capitalisation wins over anything inherited from dependencies.',
 ['inputs'], 'every Unicode code point as first character of the form and of the name (quick: the Basic Multilingual Plane), all upper/lower patterns of short names, all positions of case properties among up to 3 dependencies, empty and one-letter forms',
 'tests use a few Cyrillic words',
 ['utg/templates.py', 'utg/words.py'],
 [('appended upper-case property', 'utg/templates.py: Substitution.parse'), ('capitalisation in WordForm.get_form', 'utg/words.py')],
 ['Template.substitute', 'WordForm.form'])

prop('C19', 'Property sets can be shown as text and read back',
 'The textual rendering of every property set is text in parentheses listing the short identifiers of exactly its values, in a fixed order that does not depend on how the set was built, and parsing that list as template properties gives an equal set. '
 'Each identifier names one value only and is accepted in any letter case.',
 ['inputs'], 'every property set of up to 3 values from distinct categories (thorough: 4 for a reduced pool), built in every order',
 'tests never render a property set',
 ['utg/words.py', 'utg/templates.py', 'utg/relations.py'],
 [('Properties.__str__', 'utg/words.py'), ('Substitution.parse_properties', 'utg/templates.py'), ('identifier table', 'utg/logic.py')],
 ['str(Properties)', 'Substitution.parse_properties'])

prop('C20', 'Phonetic features always describe the current forms',
 'The number of syllables is the number of vowels of the first form, but at least one; a word has a fluent vowel exactly if the vowels of its first form are not a prefix of the vowels of some other non-empty form; a form begins with a consonant cluster exactly if its first letter is a consonant and it has no second letter or a consonant second one. '
 'These hold for any texts in any letter case, whether asked before or after missing forms are filled in.',
 ['inputs', 'histories'], 'all texts up to a length bound over vowel, consonant, sign, hyphen and foreign letters in both cases, all pairs of all Russian letters, all short combinations of several forms, and all orders of asking and filling in',
 'tests check a dozen words and never change a word after asking',
 ['utg/words.py', 'utg/utils.py', 'utg/data.py'],
 [('lazy attributes of Word and WordForm', 'utg/words.py, utg/utils.py'), ('letter classes', 'utg/data.py')],
 ['Word.number_of_syllables', 'Word.has_fluent_vowel', 'WordForm.starts_with_consonant_cluster'])

prop('C21', 'Behaviour does not depend on import order or hash randomisation',
 'Every module of the library can be the first one imported, and whatever the import order, the interpreter\'s hash seed, its optimisation level and the locale, the tables, identifiers, completed words, generated texts and reported errors are the same. Importing or using one part of the library, migrations included, never changes what another part computes.',
 ['configurations'], 'every module first, usable migrations included, every ordered pair of modules (thorough: triples), a range of hash seeds, and all combinations of five sets of interpreter flags and four locales, each in a fresh interpreter, comparing a digest of all tables and of a set of generated texts, errors and migrated words; the tables are read before, between and after the rest is imported and used',
 'the test run imports everything once, in one order, with hash seed 0',
 ['utg/data.py', 'utg/logic.py', 'utg/restrictions.py', 'utg/words.py', 'utg/constructors.py'],
 [('module level table construction', 'utg/data.py, utg/logic.py')],
 ['data tables', 'Template.substitute', 'str(Properties)', 'Word.get_keys'])

prop('C22', 'Whole sentences come out in agreement whichever equivalent way is taken',
 'For the documented workflow - words described and completed, put into a dictionary in any order, a template parsed, perhaps stored and read back, chosen from a lexicon by restrictions, its variables filled with nouns, pronouns, adjectives, texts and numbers - the generated sentence is the one the documented rules give for each insertion. '
 'Every variable and every dictionary word, recognised by its text as the preferred reading of that text, stands in the form that agrees with its dependencies, independently of what stands elsewhere in the sentence. Fresh and reloaded objects, words completed before or after storing, and any order of adding words lead to the same sentence.',
 ['inputs', 'configurations', 'histories'], 'all texts of up to two (thorough: three) pieces from twenty with real Russian words and homonyms, all combinations of thirteen heroes, twelve numbers and seven places, three ways of setting the objects up; every combination is substituted in the same template object',
 'tests contain three sentences with one set of variables each',
 ['utg/templates.py', 'utg/words.py', 'utg/dictionary.py', 'utg/transformators.py', 'utg/lexicon.py', 'utg/constructors.py'],
 [('template processing', 'utg/templates.py'), ('recognition of words', 'utg/dictionary.py'), ('agreement', 'utg/transformators.py')],
 ['Template.parse', 'Template.substitute', 'Dictionary', 'Lexicon.get_random_nearest_template', 'Word.autofill_missed_forms', 'serialize/deserialize'])

prop('C23', 'Every failure is a library error that names its cause and changes nothing',
 'A wrong number of forms, an unknown identifier, an empty variable name, an unknown word, a missing variable, an unknown lexicon key and a key without admissible template are each reported by their own error class, which can also be caught as the error of its area (words or lexicon) and as the common error of the library. '
 'The message names the cause exactly as it was given (identifiers and names in lower case without outer spaces), whatever characters it contains and, for lexicon keys, whatever kind of object it is. After the failure the same word, template, dictionary and lexicon, and new ones, work as before.',
 ['inputs', 'histories'], 'all texts up to 3 (thorough 4) characters over an alphabet special to formatting and quoting as the cause of each of eleven ways to fail, all kinds of hashable keys, and all pairs of failures one after the other',
 'tests check only the class of a few errors with plain words',
 ['utg/exceptions.py', 'utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py'],
 [('error classes and messages', 'utg/exceptions.py'), ('places that raise', 'utg/words.py, utg/templates.py, utg/dictionary.py, utg/lexicon.py')],
 ['exceptions', 'Word', 'Template.parse', 'Template.substitute', 'Dictionary.get_word', 'Lexicon.get_random_template', 'Lexicon.get_random_nearest_template'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
