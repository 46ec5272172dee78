#!/usr/bin/env python3
"""mutate.py OUT N SEED [FILE...]: samples N small source mutations of the headers (scratch copies only) and runs the quick checks
relevant to the mutated file until one reports a violation.  Prints the mutants no check reports: candidates for stronger checks."""
import sys, os, re, random, subprocess, shutil, json, threading, glob
from concurrent.futures import ThreadPoolExecutor
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); ONLYF = sys.argv[4:]
W = os.environ.get('MUT_W', '/tmp/w/mut'); NW = int(os.environ.get('MUT_WORKERS', '4')); JOBS = os.environ.get('MUT_JOBS', '2')
INC = '/repo/include/boost/icl/'
IV = ['C01', 'C02', 'C03', 'C04', 'C29', 'C28', 'C30', 'C05']
SETS = ['C05', 'C06', 'C07', 'C08', 'C09', 'C18', 'C21', 'C19', 'C17', 'C23', 'C24', 'C26', 'C20', 'C22', 'C29']
MAPS = ['C13', 'C11', 'C12', 'C10', 'C14', 'C21', 'C15', 'C17', 'C18', 'C19', 'C23', 'C24', 'C16', 'C26']
ELS = ['C25', 'C26', 'C17', 'C24', 'C18', 'C21', 'C27']
REL = {'concept/interval.hpp': IV, 'concept/interval_bounds.hpp': IV, 'functors.hpp': ['C27', 'C10', 'C11', 'C25', 'C14'], 'map.hpp': ELS, 'iterator.hpp': ['C17'], 'detail/element_iterator.hpp': ['C22'], 'detail/mapped_reference.hpp': ['C22'],
  'detail/interval_subset_comparer.hpp': ['C19', 'C18'], 'detail/element_comparer.hpp': ['C19'], 'detail/subset_comparer.hpp': ['C25', 'C19'], 'detail/set_algo.hpp': ELS, 'detail/map_algo.hpp': ELS, 'detail/interval_set_algo.hpp': SETS, 'detail/interval_map_algo.hpp': MAPS,
  'concept/interval_set.hpp': SETS, 'interval_base_set.hpp': SETS, 'interval_set.hpp': SETS, 'split_interval_set.hpp': SETS, 'separate_interval_set.hpp': SETS, 'interval_base_map.hpp': MAPS, 'interval_map.hpp': MAPS, 'split_interval_map.hpp': MAPS, 'concept/interval_map.hpp': MAPS,
  'concept/element_set.hpp': ELS, 'concept/element_map.hpp': ELS, 'concept/element_associator.hpp': ELS, 'concept/interval_associator.hpp': ['C20', 'C21', 'C22', 'C23'] + SETS[:5] + MAPS, 'concept/interval_associator_base.hpp': ['C21', 'C18', 'C20', 'C22', 'C19', 'C24'], 'gregorian.hpp': ['C28'], 'ptime.hpp': ['C28'],
  'detail/exclusive_less_than.hpp': IV + SETS[:3], 'detail/interval_morphism.hpp': ['C23', 'C24'], 'concept/container.hpp': ELS + SETS, 'dynamic_interval_traits.hpp': IV, 'interval.hpp': IV, 'interval_traits.hpp': IV, 'concept/set_value.hpp': ELS + ['C22'], 'concept/map_value.hpp': ELS + ['C22'], 'concept/interval_set_value.hpp': ['C22', 'C19', 'C18'], 'concept/joinable.hpp': ['C16', 'C08'], 'concept/comparable.hpp': ['C19', 'C25', 'C03']}
for f in ('right_open', 'left_open', 'closed', 'open', 'discrete', 'continuous'): REL[f + '_interval.hpp'] = IV
for f in ('succ_pred', 'infinity', 'identity_element', 'unit_element', 'has_inverse', 'absorbs_identities', 'is_total', 'difference_type_of', 'size_type_of', 'is_discrete', 'is_continuous', 'is_numeric'): REL['type_traits/' + f + '.hpp'] = ['C27', 'C04', 'C28', 'C20', 'C10', 'C01']
random.seed(SEED)
SKIP = re.compile(r'^\s*(//|#|\*|/\*|template|typedef|using|enable_if|friend|BOOST_|struct|class|public|private|protected|namespace|mpl::)|BOOST_ASSERT|static_assert|mpl::|is_same|type_traits|concept_')
RULES = [(r'&&', '||'), (r'\|\|', '&&'), (r'==', '!='), (r'!=', '=='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'\blower\(', 'upper('), (r'\bupper\(', 'lower('), (r'\bleft_subtract\(', 'right_subtract('), (r'\bright_subtract\(', 'left_subtract('),
  (r'\bdomain_next<', 'domain_prior<'), (r'\bdomain_prior<', 'domain_next<'), (r'!(?=[a-z(])', ''), (r'\bif\(', 'if(!'), (r'\+\+(?=[a-z])', '--'), (r'--(?=[a-z])', '++'), (r'(\w+)\+\+', r'\1'), (r'\bend\(\)', 'begin()'), (r'\bbegin\(\)', 'end()'), (r'\+=', '-='), (r'-=', '+='), (r'&=', '|='), (r'\|=', '&='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '),
  (r'lower_bound', 'upper_bound'), (r'upper_bound', 'lower_bound'), (r'lower_less\(', 'lower_less_equal('), (r'lower_less_equal\(', 'lower_less('), (r'upper_less\(', 'upper_less_equal('), (r'upper_less_equal\(', 'upper_less('), (r'lower_min', 'lower_max'), (r'lower_max', 'lower_min'), (r'upper_max', 'upper_min'), (r'upper_min', 'upper_max'), (r'\bleft_bounds', 'right_bounds'), (r'\bright_bounds', 'left_bounds'), (r'inner_bounds', 'outer_bounds'),
  (r'\bprior\((\w+)\)', r'\1'), (r'prior\(([\w.]+)\)', r'\1'), (r'\((\w+), (\w+)\)', r'(\2, \1)'), (r'\? (.+) : (.+?)([;)])', r'? \2 : \1\3'), (r'interval_bounds::left_open', 'interval_bounds::closed'), (r'return (.*);', r'return !(\1);'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'subset', 'superset'), (r'superset', 'subset')]
def muts(f):
    r = []; L = open(INC + f).read().split('\n'); inc = False
    for i, l in enumerate(L):
        if '/*' in l: inc = '*/' not in l[l.index('/*'):]
        elif inc: inc = '*/' not in l; continue
        if SKIP.search(l) or not l.strip(): continue
        code = l.split('//')[0]
        for a, b in RULES:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code: r.append((f, i, l, n))
        if re.match(r'^\s+[\w.>*()\-:]+(\(.*\)|\s*[-+|&^]?=\s.*);\s*$', code) and not re.match(r'^\s*(return|typename|const|bool|iterator|std::size_t|type|else return)', code): r.append((f, i, l, re.match(r'^\s*', code).group(0) + ';'))
    return r
allm = []
for f in REL:
    if os.path.exists(INC + f) and (not ONLYF or f in ONLYF): allm += muts(f)
random.shuffle(allm)
done = set(); sel = []
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d['file'], d['line'], d['new']))
perf = {}
for m in allm:
    if (m[0], m[1] + 1, m[3]) in done: continue
    sel.append(m)
    if len(sel) >= N: break
print('%d possible, %d selected' % (len(allm), len(sel))); sys.stdout.flush()
lk = threading.Lock(); free = list(range(NW))
def setup(k):
    d = '%s/%d' % (W, k)
    if not os.path.exists(d + '/verif'): os.makedirs(d, exist_ok=True); subprocess.check_call(['git', 'clone', '-q', '/verif', d + '/verif'])
    else: subprocess.check_call('git -C %s/verif fetch -q /verif && git -C %s/verif reset -q --hard FETCH_HEAD' % (d, d), shell=True)
    os.makedirs(d + '/verif/build', exist_ok=True)
    shutil.rmtree(d + '/r', ignore_errors=True); os.makedirs(d + '/r'); shutil.copytree('/repo/include', d + '/r/include')
    return d
for k in range(NW): setup(k)
def run(m):
    f, i, l, n = m
    with lk: k = free.pop()
    d = '%s/%d' % (W, k); p = d + '/r/include/boost/icl/' + f; src = open(INC + f).read(); L = src.split('\n'); assert L[i] == l; L[i] = n; res = 'SURVIVED'; errs = []
    try:
        with open(p, 'w') as h: h.write('\n'.join(L))
        for prop in REL[f]:
            env = dict(os.environ, ICL_REPO=d + '/r', SX_JOBS=JOBS, SX_DEADLINE='600', VERIF_SEED='1')
            try: q = subprocess.run(['python3', d + '/verif/check.py', prop, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900); o = q.stdout.decode('utf8', 'replace'); rc = q.returncode
            except subprocess.TimeoutExpired: o, rc = 'timeout', 99
            if rc == 1: res = 'KILLED ' + prop; break
            if rc:
                e = [x for x in o.splitlines() if 'ERROR' in x or 'rror:' in x or x == 'timeout']
                if 'does not compile' in o: res = 'NOCOMPILE'; break
                errs.append(prop + ': ' + (e[0][:300] if e else o[-200:]))
                if len(errs) > 1: break
    finally:
        with open(p, 'w') as h: h.write(src)
        with lk:
            free.append(k); open(OUT, 'a').write(json.dumps({'file': f, 'line': i + 1, 'old': l, 'new': n, 'res': res, 'errs': errs}) + '\n')
            if res == 'SURVIVED': print('%s:%d  %s\n   ->  %s  %s' % (f, i + 1, l.strip(), n.strip(), errs)); sys.stdout.flush()
with ThreadPoolExecutor(NW) as ex: list(ex.map(run, sel))
