"""Systematic mutation of /repo/utg, to find behaviour the checks do not look at (development aid, not used by any check).

usage: python3 tools/mutate.py list            number of mutants
       python3 tools/mutate.py tests TESTS.jsonl             which mutants the tests notice
       python3 tools/mutate.py checks OUT.jsonl TESTS.jsonl  the others are given to the checks (UTG_REPO points at a scratch copy)"""
import warnings; warnings.simplefilter('ignore')
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = os.environ.get('MUT_SRC', '/repo')      # a copy, when /repo may change meanwhile
FILES = ['words', 'templates', 'dictionary', 'lexicon', 'constructors', 'transformators', 'logic', 'restrictions', 'data', 'utils', 'relations',
         'migrations/m_0001_include_short_forms_in_full', 'migrations/m_0002_countable_noun_form', 'migrations/m_0003_change_verb_forms',
         'migrations/m_0004_new_preposition_form', 'migrations/m_0005_remove_time_participle_property', 'migrations/m_0006_per_word_type_restrictions',
         'migrations/m_0007_reduce_words_forms', 'migrations/m_0008_lower_animiality_nearest_priority', 'migrations/m_0009_pronoun_modernization']
# checks of the properties anchored in each file
FIRST = {'words': 'C02 C19 C20 C12 C06 C01 C15 C07 C18', 'templates': 'C05 C17 C23 C19 C04 C06 C03 C18 C22', 'dictionary': 'C07 C17 C23', 'lexicon': 'C08 C23',
         'constructors': 'C09 C10', 'transformators': 'C10 C11 C22 C04', 'logic': 'C02 C01 C12 C21', 'restrictions': 'C02 C21', 'data': 'C02 C20 C11 C21',
         'utils': 'C20 C06 C15', 'relations': 'C02 C19 C21'}

CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}


def mutants_of(source):
    """yields (start offset, end offset, replacement, description)"""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    data = source.encode()
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        s, e = span(node)
        return data[s:e].decode()
    for node in ast.walk(tree):
        big = hasattr(node, 'end_lineno') and node.end_lineno - node.lineno > 40
        if big and not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.Assign):
                continue
        if isinstance(node, ast.Compare) and len(node.ops) >= 1:
            parts = [node.left] + node.comparators
            for i, op in enumerate(node.ops):
                for new in CMP.get(type(op), ()):
                    s, e = span(parts[i])[1], span(parts[i + 1])[0]
                    yield s, e, ' %s ' % new, 'compare'
        elif isinstance(node, ast.BoolOp):
            s, e = span(node)
            words = [text(v) for v in node.values]
            other = ' or ' if isinstance(node.op, ast.And) else ' and '
            yield s, e, '(' + other.join('(%s)' % w for w in words) + ')', 'boolop'
            for i in range(len(words)):
                rest = words[:i] + words[i + 1:]
                yield s, e, '(' + (' and ' if isinstance(node.op, ast.And) else ' or ').join('(%s)' % w for w in rest) + ')', 'drop operand'
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            s, e = span(node)
            yield s, e, '(%s)' % text(node.operand), 'drop not'
        elif isinstance(node, ast.If) or isinstance(node, ast.IfExp) or isinstance(node, ast.While):
            s, e = span(node.test)
            yield s, e, 'True', 'if true'
            yield s, e, 'False', 'if false'
        elif isinstance(node, ast.comprehension):
            for c in node.ifs:
                s, e = span(c)
                yield s, e, 'True', 'comprehension true'
        elif isinstance(node, ast.Constant):
            s, e = span(node)
            if isinstance(node.value, bool):
                yield s, e, repr(not node.value), 'bool'
            elif isinstance(node.value, int):
                yield s, e, repr(node.value + 1), 'int+1'
                yield s, e, repr(node.value - 1), 'int-1'
            elif isinstance(node.value, float):
                yield s, e, repr(node.value * 20), 'float*20'
                yield s, e, '0', 'float 0'
            elif isinstance(node.value, str) and node.value and len(node.value) < 60:
                yield s, e, repr(node.value + 'ж'), 'str+'
        elif isinstance(node, (ast.Continue, ast.Break)):
            s, e = span(node)
            yield s, e, 'break' if isinstance(node, ast.Continue) else 'continue', 'continue/break'
            yield s, e, 'pass', 'drop jump'
        elif isinstance(node, (ast.Raise, ast.Delete, ast.AugAssign)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            s, e = span(node)
            yield s, e, 'pass', 'drop statement'
        elif isinstance(node, ast.Assign) and not big:
            s, e = span(node)
            yield s, e, 'pass', 'drop assignment'
        elif isinstance(node, ast.Return) and node.value is not None:
            s, e = span(node)
            yield s, e, 'return None', 'return None'
        elif isinstance(node, ast.Call) and not big:
            s, e = span(node)
            if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
                yield s, e, text(node.func.value), 'drop call .%s()' % node.func.attr
            if len(node.args) == 1 and isinstance(node.func, ast.Name) and not node.keywords and not isinstance(node.args[0], (ast.GeneratorExp, ast.Starred)):
                yield s, e, '(%s)' % text(node.args[0]), 'drop call %s()' % node.func.id
            if len(node.args) + len(node.keywords) > 1:
                for i in range(len(node.args)):
                    left = [text(x) for j, x in enumerate(node.args) if j != i] + ['%s=%s' % (k.arg, text(k.value)) if k.arg else '**' + text(k.value) for k in node.keywords]
                    yield s, e, '%s(%s)' % (text(node.func), ', '.join(left)), 'drop argument'
                for i in range(len(node.keywords)):
                    left = [text(x) for x in node.args] + ['%s=%s' % (k.arg, text(k.value)) if k.arg else '**' + text(k.value) for j, k in enumerate(node.keywords) if j != i]
                    yield s, e, '%s(%s)' % (text(node.func), ', '.join(left)), 'drop keyword'
                if len(node.args) > 1:
                    swapped = [text(x) for x in node.args]
                    swapped[0], swapped[1] = swapped[1], swapped[0]
                    left = swapped + ['%s=%s' % (k.arg, text(k.value)) if k.arg else '**' + text(k.value) for k in node.keywords]
                    yield s, e, '%s(%s)' % (text(node.func), ', '.join(left)), 'swap arguments'
        elif isinstance(node, ast.BinOp):
            ops = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.BitAnd: '|', ast.Mod: '//'}
            if type(node.op) in ops and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                s, e = span(node.left)[1], span(node.right)[0]
                yield s, e, ' %s ' % ops[type(node.op)], 'binop'
        elif isinstance(node, ast.Attribute) and node.attr.isupper() and isinstance(node.value, ast.Attribute) and node.value.attr.isupper():
            s, e = span(node)
            for v in siblings(node.value.attr, node.attr):
                yield s, e, '%s.%s' % (text(node.value), v), 'other value'
        elif isinstance(node, ast.Attribute) and node.attr.startswith('is_') and node.attr[3:].isupper():
            s, e = span(node)
            for rel in RELATIONS.values():
                if node.attr[3:] in rel:
                    for v in rel:
                        if v != node.attr[3:]:
                            yield s, e, '%s.is_%s' % (text(node.value), v), 'other is_'
                    break
        elif isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) > 1 and not big and isinstance(getattr(node, 'ctx', None), ast.Load):
            s, e = span(node)
            o, c = ('[', ']') if isinstance(node, ast.List) else ('(', ',)')
            for i in range(len(node.elts)):
                yield s, e, o + ', '.join(text(x) for j, x in enumerate(node.elts) if j != i) + c, 'drop element'


RELATIONS = {}


def siblings(relation, name):
    return [v for v in RELATIONS.get(relation, ()) if v != name][:2]


def load_relations():
    tree = ast.parse(open(SRC + '/utg/relations.py', encoding='utf-8').read())
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for a in c.body:
                if isinstance(a, ast.Assign) and a.targets[0].id == 'records':
                    RELATIONS[c.name] = [x.elts[0].value for x in a.value.elts]


def all_mutants():
    load_relations()
    for name in FILES:
        path = 'utg/%s.py' % name
        source = open(os.path.join(SRC, path), encoding='utf-8').read()
        seen, tables = set(), 0
        functions = [(n.lineno, n.end_lineno) for n in ast.walk(ast.parse(source)) if isinstance(n, ast.FunctionDef)]
        for s, e, new, what in mutants_of(source):
            old = source.encode()[s:e].decode()
            if old.strip() == new.strip() or (s, e, new) in seen:
                continue
            seen.add((s, e, new))
            line = source.encode()[:s].decode().count('\n') + 1 if 'migr' in name else 0
            if 'migr' in name and not any(x <= line <= y for x, y in functions):
                tables += 1
                if tables % 211:
                    continue
            mutated = (source.encode()[:s] + new.encode() + source.encode()[e:]).decode()
            try:
                ast.parse(mutated)
            except SyntaxError:
                continue
            yield {'file': path, 'line': source.encode()[:s].decode().count('\n') + 1, 'what': what, 'old': old[:120], 'new': new[:120]}, mutated


def scratch(info, mutated):
    work = tempfile.mkdtemp(prefix='mut.')
    tree = os.path.join(work, 'repo')
    shutil.copytree(SRC, tree, ignore=shutil.ignore_patterns('__pycache__', '.git'))
    open(os.path.join(tree, info['file']), 'w', encoding='utf-8').write(mutated)
    return work, tree


def write(out, record):
    with open(out, 'a') as f:
        f.write(json.dumps(record, ensure_ascii=False) + '\n')


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')


def try_tests(args):
    number, info, mutated, out = args
    work, tree = scratch(info, mutated)
    try:
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'utg/tests', '--timeout=100'], cwd=tree, env=ENV, capture_output=True, text=True)
        write(out, dict(info, number=number, result='tests' if p.returncode or '93 passed' not in p.stdout else 'SURVIVED'))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def try_checks(args):
    number, info, mutated, out = args
    work, tree = scratch(info, mutated)
    try:
        verif = os.path.join(work, 'verif')
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'out', 'evidence'))
        name = info['file'][4:-3]
        order = ['C16', 'C21'] if name.startswith('migr') else FIRST[name].split()
        env = dict(ENV, UTG_REPO=tree, MC_JOBS=os.environ.get('MUT_MC_JOBS', '2'), PYTHONPATH='', PYTHONUTF8='1', PYTHONHASHSEED='1')
        result, broken = 'SURVIVED', []
        for c in order:
            q = subprocess.run([PY, '-B', '-W', 'ignore', '-m', 'mc', 'check', c, 'quick'], cwd=verif, env=env, capture_output=True, text=True)
            if q.returncode == 1:
                result = c
                break
            if q.returncode:
                broken.append(c)
        write(out, dict(info, number=number, result=result, broken=broken))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    todo = list(enumerate(all_mutants()))
    if sys.argv[1] == 'list':
        from collections import Counter
        print(len(todo), Counter(i['file'] for _, (i, m) in todo))
    else:
        out = sys.argv[2]
        done = {json.loads(l)['number'] for l in open(out)} if os.path.exists(out) else set()
        if sys.argv[1] == 'checks':
            left = {d['number'] for d in map(json.loads, open(sys.argv[3])) if d['result'] == 'SURVIVED'}
            todo = [(n, x) for n, x in todo if n in left]
            only = os.environ.get('MUT_FILES')
            if only:
                todo = [(n, x) for n, x in todo if any(part in x[0]['file'] for part in only.split())]
        with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '8'))) as pool:
            list(pool.map(try_tests if sys.argv[1] == 'tests' else try_checks, [(n, i, m, out) for n, (i, m) in todo if n not in done]))
