"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCKSTEP = 'bounded exhaustive enumeration of executions of the real code in lockstep with an explicit reference model'
NOTES = {
    'C01': (LOCKSTEP, 'all requests of up to the schema size x fixed property sets of the word, all full property sets; small scope'),
    'C02': (LOCKSTEP, 'finite: every slot, value, stored number and identifier; complete'),
    'C03': (LOCKSTEP, 'all template texts up to a length bound over an alphabet of special characters, and piece sequences'),
    'C04': (LOCKSTEP, 'all dependency sequences up to a bound from a catalogue, both kinds of base form'),
    'C05': (LOCKSTEP, 'all bracket contents up to a bound, all sequences of parses of one template up to a bound'),
    'C06': (LOCKSTEP, 'all histories of store/load/parse/substitute up to a bound over template and word pools, through JSON'),
    'C07': ('explicit-state breadth-first search over dictionary histories, every transition replayed on the real dictionary',
            'all histories of additions up to a depth from pools of colliding words'),
    'C08': ('exhaustive histories of additions and queries, with every outcome of the random source forced',
            'the random source is intercepted at random.Random._randbelow; templates and restrictions from a small pool'),
    'C09': (LOCKSTEP, 'all numbers of a range around every boundary, all construction orders up to a bound, cold and warm'),
    'C10': (LOCKSTEP, 'the complete finite table of numeral class x case x animacy x gender x mode x part of speech, through templates'),
    'C11': (LOCKSTEP, 'all texts up to a length bound over letter classes, all one- and two-letter texts over all letters'),
    'C12': (LOCKSTEP, 'all sets of given forms up to the bound for every part of speech'),
    'C13': ('exhaustive enumeration of operation sequences on shared objects, each in a fresh process, against a history-free model',
            'all sequences up to length 3 (thorough 4) of a catalogue of 26 operations'),
    'C14': ('stateless model checking: all schedules of real threads under a controlled scheduler with bounded preemptions',
            'preemption bound 1-2 (thorough 2-3) at source lines and byte codes, at most 3 yield points per thread and position'),
    'C15': (LOCKSTEP, 'all pairs and triples of values and small sets; all pairs of a pool of words and forms in cached and uncached states'),
    'C16': (LOCKSTEP, 'all migrations and chains x parts of speech x single-slot patterns against the meaning of the slots in both layouts'),
    'C17': (LOCKSTEP, 'all templates of up to 3 (thorough 4) substitutions x subsets of variables x dictionaries'),
    'C18': (LOCKSTEP, 'all code points of the BMP (thorough: all), all case patterns, all dependency sequences up to a bound'),
    'C19': (LOCKSTEP, 'all property sets of up to 3 (thorough 4) values in every order'),
    'C20': (LOCKSTEP, 'all texts up to a bound over letter classes, all letter pairs, all histories of questions and fill-ins up to a bound'),
    'C21': ('exhaustive enumeration of first-import orders and a range of hash seeds, each a fresh interpreter, against a model digest',
            'every module and ordered pair first (thorough: triples), 48 (thorough: 400) hash seeds'),
    'C22': (LOCKSTEP, 'all texts of up to 2 (thorough 3) pieces x all combinations of variables x three ways of setting the objects up'),
    'C23': (LOCKSTEP, 'all texts up to 3 (thorough 4) characters as the cause of every way to fail, all pairs of failures'),
}
checks = [{'property': id, 'quick_cmd': './check.sh %s quick' % id, 'thorough_cmd': './check.sh %s thorough' % id,
           'evidence_file': 'evidence/%s.json' % id, 'technique': NOTES[id][0], 'level': 'model_checking', 'level_note': NOTES[id][1]}
          for id in sorted(NOTES)]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': []}, f, ensure_ascii=False, indent=1)
    f.write('\n')
