"""What each check builds and runs. Case counts, never seconds, bound the work."""
COMMON = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-pipe']
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
VARIANTS = {
    # the default build of every behavioural check: address + undefined sanitizers, library assertions on
    'asan': dict(cxx='g++', flags=COMMON + SAN),
    # checked iterators and containers; the character classification functions are real calls the driver watches
    'debug': dict(cxx='g++', flags=COMMON + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC', '-D__NO_CTYPE', '-DCTYPE_MONITOR']),
    # for memcheck: optimised as little as is bearable, no sanitizer
    'plain': dict(cxx='g++', flags=COMMON + ['-O1']),
}
VARIANTS['tsan'] = dict(cxx='clang++', flags=COMMON + ['-O1', '-fsanitize=thread'])
VARIANTS['tsan-gcc'] = dict(cxx='g++', flags=COMMON + ['-O1', '-fsanitize=thread', '-Wno-tsan'])
def part(driver, quick, thorough, name=None, variant='asan', **kw):
    return dict(driver=driver, name=name or driver, variant=variant, n=dict(quick=quick, thorough=thorough), **kw)
SPECS = {}

SPECS['C01'] = dict(level='exploration', parts=[part('c01', 40000, 1500000)],
        min={'small-world-lines': 200000, 'small-world-accepted': 50000, 'accepted': 1000, 'accepted-with-terminator': 100, 'adjacent-values': 500},
        rule='random option tables x styles x positional sets x argument vectors (hostile and mostly correct); small worlds enumerated completely in 16 styles (every token of up to four characters from -/=ab with four kinds of followers, every line of up to three of 19 tokens); non-trivial: accepted with at least two kinds of parsed items (positional, unregistered, with value, without)')

SPECS['C02'] = dict(level='exploration', parts=[part('c02', 25000, 800000)],
        min={'classes-with-several-spellings': 1000, 'spelling-alias': 50, 'spelling-abbreviation': 50, 'spelling-letter-case': 50, 'spelling-group': 50, 'spelling-group-with-value': 50, 'spelling-disguised-next': 20, 'spelling-slash-short-adjacent': 20, 'long-groups': 300, 'wildcard-case': 150},
        rule='random option tables x styles x abstract assignments, each spelled up to five ways with the spellings the style permits; non-trivial: the assignment has at least two distinct spellings')

SPECS['C03'] = dict(level='exploration', parts=[part('c03', 40000, 1500000)],
    min={'good-lines': 2000, 'injected-unknown_option': 300, 'injected-ambiguous_option': 100, 'injected-missing_parameter': 300, 'injected-empty_adjacent_parameter': 200, 'injected-extra_parameter': 100, 'injected-too_many_positional': 200, 'model-ok': 2000, 'small-world-lines': 400000, 'small-world-ok': 50000, 'small-world-own-semantics': 200000},
    rule='correct lines with one defect injected at a random place (error class known by construction), the same line without the defect, hostile lines compared with the reference model, and small worlds enumerated completely (every token of up to four characters from -/=ab with four kinds of followers, every line of up to three of 19 tokens, every line of up to four of 12 tokens for users\' own semantics that need or permit several values, in 16 styles); non-trivial: lines with a defect')

SPECS['C04'] = dict(level='exploration', parts=[part('c04', 40000, 1500000)],
    min={'small-world-lines': 30000, 'names-asked': 2000, 'bound': 500, 'bound-with-terminator': 500, 'too-many': 100, 'stored-positionals': 500, 'model-accepted': 1000},
    rule='random positional descriptions x lines whose positionals are known by construction (with hostile text behind a terminator), hostile lines against the reference model; every line of up to three of 19 tokens with six positional descriptions in 16 styles; non-trivial: at least two positional arguments')

SPECS['C05'] = dict(level='exploration', parts=[part('c05', 30000, 1200000)],
    min={'found': 2000, 'unknown': 2000, 'ambiguous': 500, 'contested': 2000, 'parsed': 2000},
    rule='tables of mutually prefixing, aliased, wildcard and case-variant names, in two orders and in groups, x looked-up names x flags; non-trivial: the name touches at least two options')

SPECS['C06'] = dict(level='exploration', parts=[part('c06', 40000, 1500000)],
    min={'small-world-lines': 100000, 'small-world-unregistered': 20000, 'mixed': 1000, 'mixed-with-terminator': 100, 'second-stages': 1000, 'wide': 500, 'user-parsers': 1000, 'model-accepted': 1000},
    rule='lines built from a known and a disjoint unknown option set (ownership of every argument known by construction) incl. second-stage reparsing and the wide variant, and hostile lines against the model; small worlds enumerated completely in 16 styles (every token of up to four characters from -/=ab with four kinds of followers, every line of up to three of 19 tokens); non-trivial: both registered and unregistered options present')

SPECS['C07'] = dict(level='exploration', parts=[part('c07', 20000, 600000)],
    min={'refused-styles': 1000, 'accepted-styles': 1000, 'mask-tokens': 50000, 'random-accepted': 1000},
    rule='all 8192 style masks x 2 tables x 48 token shapes (exhaustive for those), then random tables and lines under random masks; non-trivial: mask refused, or some token recognised as an option')

SPECS['C08'] = dict(level='exploration', parts=[part('c08', 30000, 1000000)],
    min={'enumerated': 100000, 'own-semantics': 3000, 'own-semantics-satisfied': 300, 'consumed': 5000, 'missing': 1000, 'hostile-continuations': 5000, 'arity-multi': 200, 'arity-multi0': 200, 'arity-implicit': 200},
    rule='8 arities and 10 bounds of users\' own semantics x 4 spellings x all sequences of up to 3 following tokens from 12 boundary shapes (exhaustive), then random constructed lines and hostile continuations, and random tables with users\' own semantics against the model; non-trivial: the option consumes a following token / at least two items')

SPECS['C09'] = dict(level='exploration', parts=[part('c09', 25000, 900000)],
    min={'used': 1000, 'expanded': 500, 'declining': 500, 'style-parser-offers': 5000, 'token-parser-offers': 5000, 'rejected-unknown_option': 100},
    rule='7 style parsers and 5 token parsers (declining, multi-argument, swallowing, several options, terminator-taking) x tables x lines, call traces recorded; style parsers that replace arguments by others, compared with the line written out; non-trivial: accepted and the user parser changed the result')

SPECS['C10'] = dict(level='exploration', parts=[part('c10', 30000, 1000000)],
    min={'all-histories': 50000, 'explicit-entries': 5000, 'defaulted-entries': 5000, 'composed': 500, 'repeats-refused': 100, 'stored-again': 100},
    rule='random option sets (9 value types x composing/default/implicit/multitoken, aliases, groups) x histories of up to 5 stores from command line, case-ignoring command line, config text and environment-like sources with uniquely identified values; all histories of up to 4 stores from 15 fixed sources over two descriptions; non-trivial: at least two successful stores from different kinds of source')

SPECS['C11'] = dict(level='exploration', parts=[part('c11', 30000, 1000000)],
    min={'all-histories': 100000, 'all-histories-failures': 10000, 'failed-bad-value': 200, 'failed-bad-element': 50, 'failed-many-values': 200, 'failed-repeated': 100, 'failed-unknown': 200, 'failed-foreign-exception': 200, 'stores-after-failure': 1000, 'notified': 200, 'required-missing': 200},
    rule='histories of up to 6 stores in which about two thirds are broken at a random place in one of 8 ways, compared with a twin map that sees only the successful ones; all histories of up to 4 stores from 19 fixed sources, 4 of them broken; non-trivial: at least one failed and one successful store')

SPECS['C12'] = dict(level='exploration', parts=[part('c12', 30000, 1000000)],
    min={'all-histories': 5000, 'all-histories-refused': 500, 'all-histories-notified': 1000, 'required-missing': 500, 'delivered-defaults': 1000, 'delivered-explicit': 1000, 'bound-written': 1000},
    rule='random sets of required/defaulted/bound/callback options x histories of stores, notifications and clears, every callback recorded; all histories of up to 3 stores from 19 fixed sources with a notification after each; non-trivial: at least two deliveries or refusals observed')

SPECS['C13'] = dict(level='exploration', parts=[part('c13', 60000, 3000000)],
    min={'integers-accepted': 5000, 'integers-out-of-range': 1000, 'integers-malformed': 1000, 'floats-accepted': 2000, 'floats-malformed': 500, 'bools-accepted': 1000, 'bools-malformed': 500, 'lookalikes': 1000, 'strings': 500, 'vectors-accepted': 500, 'vectors-malformed': 100},
    rule='texts at and around the limits of every supported type, mangled near misses, all values of short and all 1-2 byte texts for bool and int, through five routes; non-trivial: large, out of range or malformed text',
    assumptions=['a minus sign before an unsigned number follows boost::lexical_cast and is not judged', 'underflow to subnormal floating values is not judged'])

SPECS['C14'] = dict(level='exploration', parts=[part('c14', 25000, 1000000)],
    min={'small-world-texts': 300000, 'accepted': 5000, 'unknown': 1000, 'bad-line': 500, 'wide': 5000, 'stored': 3000},
    rule='random configuration texts (sections, blanks, comments, CRLF, odd headers, missing final newline, hostile lines) x option sets with aliases and wildcards, narrow and wide, against a line-by-line reference reader; every text of up to six characters from a = [ ] . # space newline; non-trivial: accepted with at least two options')

SPECS['C15'] = dict(level='exploration', parts=[part('c15', 6000, 200000)],
    min={'failed-midway': 800, 'failed-at-start': 300, 'complete': 500, 'complete-short-reads': 500, 'interrupted': 500, 'unopenable': 20, 'parse-errors': 200},
    rule='random configuration files read by name, narrow and wide, with read() failing (10 errnos) at a chosen call, interrupted, or short, plus every failing call of one file at 16 chunk sizes and names that cannot be read; descriptors compared before and after; non-trivial: a read failed',
    technique='runtime monitoring: fault injection at read() with a delivery monitor, descriptor accounting, under ASan+UBSan')

SPECS['C16'] = dict(level='exploration', parts=[part('c16', 12000, 500000)],
    min={'taken': 5000, 'ignored': 5000, 'mapper-calls': 10000, 'malformed-blocks': 1000, 'null-blocks': 100, 'stored-values': 500},
    rule='random environment blocks (case variants, repeated, empty, malformed and null) installed as the process environment x prefixes and recorded mappers; non-trivial: some but not all variables taken')

SPECS['C17'] = dict(level='exploration', parts=[part('c17', 20000, 1000000)],
    min={'round-trips': 10000, 'round-trips-wide': 10000, 'hostile-split': 10000, 'hostile-refused': 5000, 'exhaustive-strings': 50000},
    rule='random argument lists randomly quoted/escaped under random distinct separator/quote/escape sets, joined and split back; hostile strings and all strings up to 6 (a third of length 7) over six characters against a reference; non-trivial: at least two arguments',
    assumptions=["the letter 'n' is not chosen as separator, quote or escape character (an escaped n means newline)"])

SPECS['C18'] = dict(level='exploration', parts=[part('c18', 20000, 1000000)],
    min={'round-trips': 10000, 'hostile': 10000, 'wide': 5000, 'exhaustive-strings': 300000},
    rule='random argument lists quoted by the Microsoft rules and split back; hostile strings and all strings up to 9 over blank, quote, backslash, letter against a reference; the splitter is compiled from the tree with _WIN32 defined; non-trivial: at least two arguments',
    assumptions=['the source is compiled with _WIN32 defined on Linux; only space and tab are used as blanks outside quotes'])

SPECS['C19'] = dict(level='exploration', parts=[part('c19', 40000, 1500000)],
    min={'code-points': 1000000, 'utf8-round-trips': 10000, 'longer-than-buffer': 3000, 'malformed': 10000, 'facet-round-trips': 5000, 'facet-failures': 1000, 'facet-cut': 500, 'local-representable': 5000, 'local-unrepresentable': 2000, 'local-truncated': 1000, 'byte-strings': 100000},
    rule='every code point alone and padded, every width at every buffer offset, all 1-2 byte strings; random texts, mutated bytes, call-logging facets with varied chunking/failures, locales C and C.utf8; non-trivial: at least two characters',
    assumptions=['overlong forms, encoded surrogates and values beyond U+10FFFF are not judged', 'the locales installed here (C, C.utf8) and locales built from custom facets'])

SPECS['C20'] = dict(level='exploration', parts=[part('c20', 20000, 800000)],
    min={'small-world-lines': 100000, 'accepted': 5000, 'rejected': 5000, 'non-ascii': 10000, 'user-parsers': 5000, 'stores-equal': 5000, 'stores-refused': 1000, 'unrepresentable': 2000, 'code-points': 10000},
    rule='random option tables (some names non-ASCII) x styles x command lines and configuration texts, each parsed narrow and wide and stored into narrow, wide and mixed options, in locales C and C.utf8; small worlds enumerated completely in 16 styles (every token of up to four characters from -/=ab with four kinds of followers, every line of up to three of 19 tokens); non-trivial: the text has non-ASCII characters')


SPECS['C26'] = dict(level='exploration', parts=[part('c26', 10000, 400000)],
    min={'enumerated-chains': 3000, 'stores': 5000, 'clears': 1000, 'relinks': 1000, 'copies': 300, 'notifies': 300, 'insertions': 500, 'taken-from-behind': 5000, 'default-overridden-from-behind': 1000, 'overridden-from-two-behind': 100, 'explicit-here': 5000, 'default-here': 5000, 'absent-everywhere': 5000},
    rule='all absent/default/explicit assignments to chains of up to seven maps, then histories of store/insert/clear/relink/copy/notify over up to six maps (sometimes a user-defined one), every name looked up from every map after every step; non-trivial: at least three kinds of resolution observed')

SPECS['C27'] = dict(level='exploration', parts=[part('c27', 30000, 1500000)],
    min={'several-names': 5000, 'names-tried': 100000, 'parsed-names': 10000, 'found': 10000, 'absent': 10000, 'several-groups': 300, 'nested-groups': 200, 'grown-after-being-added': 1000, 'short-characters': 300},
    rule='random name lists (pool and odd characters, aliases, short names, every printable short name) queried directly and by parsing; random programs adding options, shared objects, whole sets and copies over up to five sets, each compared with a model after every step and printed at the end; non-trivial: several names / several additions of whole sets')

SPECS['C21'] = dict(level='exploration', parts=[part('c21', 40000, 600000)],
    min={'options-read': 20000, 'continuation-lines': 20000, 'paragraphs': 5000, 'words-chopped': 1000, 'hanging-indents': 1000, 'tabs-ignored': 200, 'first-column-too-long': 2000, 'explicit-width': 1000, 'with-groups': 3000, 'enumerated-widths': 1500, 'enumerated-texts': 5000, 'tab-errors': 4, 'column-limited-by-room': 300, 'column-by-widest-option': 1000},
    rule='random option sets (names, value texts, nested groups), descriptions (paragraphs, tabs, odd spacing, words longer than the line) and widths; every line length 3-100 and every text length 1-70 with a space everywhere; a structural reader recovers the text from the output; non-trivial: at least two options',
    assumptions=['line length at least 3; a group is not narrower than the set it is added to'])

SPECS['C22'] = dict(level='exploration', parts=[part('c22', 40000, 2000000)],
    min={'ambiguous-shorts': 200, 'made-candidates': 5000, 'no-context': 15, 'odd-prefixes': 300, 'overlapping-patterns': 300, 'enumerated': 1000, 'user-made': 1000, 'short-options': 3000, 'unknown': 300, 'ambiguous': 200, 'missing-argument': 300, 'bad-int': 300, 'bad-bool': 300, 'required': 300, 'config-line': 300, 'own-error': 300, 'too-many-positional': 300},
    rule='32 kinds of error x styles x hostile text in the place of the option name or the value, each compared with the message for a plain marker; all kinds with all placeholder texts; user-made errors; copies, assignments and rethrown exceptions compared; non-trivial: the text contains a percent sign')


VARIANTS['fuzz'] = dict(cxx='clang++', flags=COMMON + ['-O1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DFUZZ'], ldflags=['-fsanitize=fuzzer,address,undefined'])
def fuzz(run, p, exes):
    """coverage-guided: libFuzzer feeds the same interpreter; a bounded number of runs in parallel, each with its own seed"""
    import os, re, subprocess
    from concurrent.futures import ThreadPoolExecutor
    exe = exes[(p['variant'], p['driver'])]; n = p['n'][run.tier]; jobs = 8
    env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=1:handle_abort=1'; env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'; env['LC_ALL'] = 'C'
    def one(i):
        d = os.path.join(run.work, 'fuzz%d' % i); os.makedirs(d + '/corpus')
        cmd = [exe, d + '/corpus', '-runs=%d' % (n // jobs), '-seed=%d' % (run.seed * 100 + i + 1), '-max_len=900', '-len_control=20', '-rss_limit_mb=3000', '-timeout=120', '-artifact_prefix=%s/crash-' % d, '-print_final_stats=1', '-verbosity=1']
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, timeout=5000 if run.tier == 'thorough' else 700)
        t = q.stdout.decode(errors='replace')
        crash = [f for f in os.listdir(d) if f.startswith('crash-')]
        hexes = ''
        if crash:
            with open(os.path.join(d, crash[0]), 'rb') as f: hexes = f.read().hex()
            if crash[0].startswith('crash-timeout') or crash[0].startswith('crash-slow'):
                # wall-clock time decides nothing: only a second run limited in CPU time does
                q2 = subprocess.run(['/bin/bash', '-c', 'ulimit -t 100; exec "$0" "$@"', exe, '-runs=1', os.path.join(d, crash[0])], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d)
                if q2.returncode == 0: crash = []
        cov = [int(x) for x in re.findall(r'cov: (\d+)', t)]; ft = [int(x) for x in re.findall(r'ft: (\d+)', t)]; ex = re.findall(r'stat::number_of_executed_units: (\d+)', t)
        return i, q.returncode, t, crash, hexes, max(cov or [0]), max(ft or [0]), int(ex[0]) if ex else 0, len(os.listdir(d + '/corpus'))
    with ThreadPoolExecutor(jobs) as pool: res = list(pool.map(one, range(jobs)))
    for i, rc, t, crash, hexes, cov, ft, ex, corpus in res:
        if rc and crash:
            m = [k for k, x in enumerate(t.splitlines()) if 'Assertion' in x or 'runtime error' in x or 'ERROR:' in x or 'SUMMARY: monitor' in x]
            l = t.splitlines(); msg = '\n'.join(l[m[0]:m[0] + 25] if m else l[-25:])
            key = 'crash-assertion' if 'Assertion' in msg else 'fuzz-crash'
            run.violation(p['name'], key, msg, 'input ' + hexes, i)
        run.evals += ex
    c = run.counters
    c['fuzz-executions'] = c.get('fuzz-executions', 0) + sum(r[7] for r in res)
    c['fuzz-edges-covered'] = max(r[5] for r in res); c['fuzz-features'] = max(r[6] for r in res); c['fuzz-corpus-inputs'] = sum(r[8] for r in res)
    run.hashes.update((hash(('fuzz', i, k)) & (2 ** 64 - 1)) for i, r in enumerate(res) for k in range(r[8]))
    run.runs.append(dict(part=p['name'], cases=n, evaluations=sum(r[7] for r in res)))

SPECS['C23'] = dict(level='exploration', technique='compiler sanitizers (ASan, UBSan), checked standard library, interposed ctype domain monitor, valgrind memcheck and coverage-guided libFuzzer over one interpreter of hostile inputs', parts=[
        part('c23', 250000, 6000000),
        part('c23', 100000, 2000000, name='c23-debug', variant='debug'),
        part('c23', 1500, 60000, name='c23-memcheck', variant='plain', cpu=200, env={'VPM_SMALL': '1'}, wrapper=['valgrind', '-q', '--error-exitcode=88', '--exit-on-first-error=yes', '--track-origins=yes', '--leak-check=no']),
        part('c23', 160000, 6000000, name='c23-fuzz', variant='fuzz', custom=fuzz)],
    min={'command-lines': 20000, 'config-texts': 5000, 'wide-config-texts': 2000, 'environments': 30000, 'splits': 40000, 'windows-splits': 20000, 'conversions': 50000, 'prints': 10000, 'lookups': 100000, 'stores': 30000, 'notifies': 20000, 'errors': 500000, 'ctype-calls': 1000000, 'byte-lines': 5000, 'large': 10, 'large-runs': 100, 'fuzz-executions': 100000, 'fuzz-edges-covered': 5000},
    rule='random byte-driven programs over every public entry point: tables with odd names and texts, all styles, narrow and wide command lines, argv, configuration texts, iterators and files, environment blocks, unix and windows splitting, conversions, help, lookups, error objects; plus all byte values in all places, very large inputs, and coverage-guided fuzzing; non-trivial: distinct results with more than 20 values (or a libFuzzer corpus input)',
    assumptions=['option tables and API calls satisfy the documented preconditions: a name is not empty, at most one unlimited positional, style bits within the 13 defined, at least one alternative in an ambiguity, line length above 2 and larger than the minimum description length plus one', 'memcheck sees the library compiled with -O1; libstdc++ itself is not instrumented by the sanitizers'])

SPECS['C24'] = dict(level='exploration', technique='ThreadSanitizer (two compilers) over threads sharing descriptions, with injected delays and a transcript monitor comparing every thread with the same operations done alone', parts=[
        part('c24', 3000, 120000, variant='tsan', shards=16, cpu=200),
        part('c24', 1500, 60000, name='c24-gcc', variant='tsan-gcc', shards=16, cpu=200),
        part('c24', 160, 1600, name='c24-first-use', variant='tsan', shards=80, cpu=200),
        part('c24', 4000, 200000, name='c24-asan', variant='asan', cpu=200)],
    min={'operations': 100000, 'overlapping-operations': 2000, 'three-at-once': 50, 'process-first-use': 100, 'first-use-of-description': 1500, 'repeated': 3000, 'errors': 20000},
    rule='2-8 threads x scripts of 4-11 of 14 kinds of operation (parsing narrow/wide/config/environment, storing shared results, notifying, lookup, printing, composing, shared map lookup, conversions, error messages) on one shared set of descriptions, threads first and before anything else used them; delays injected in user validators, notifiers, stream operators and between operations; every shard also makes the first use of the process; non-trivial: overlapping operations, distinct by operation order and description',
    assumptions=['bound variables are not shared between threads; error objects are not shared between threads; ThreadSanitizer does not see inside libstdc++.so'])

SPECS['C25'] = dict(level='exploration', technique='runtime monitoring: allocation-failure injection at every allocation point, live-allocation accounting, result oracle, under ASan+UBSan', parts=[part('c25', 16000, 400000, cpu=120)],
    min={'operations': 10000, 'injected': 500000, 'reported': 300000, 'retries': 100000, 'allocation-points': 300000, 'op-parse': 500, 'op-parse-wide': 500, 'op-parse-argv': 500, 'op-config': 300, 'op-config-wide': 300, 'op-config-file': 150, 'op-config-file-wide': 150, 'op-environment': 500, 'op-store': 1000, 'op-notify': 500, 'op-lookup': 500, 'op-split': 500, 'op-convert': 500, 'op-collect': 500, 'op-whole-program': 500, 'op-copy': 200, 'op-message': 200},
    rule='17 kinds of operation (command lines narrow/wide/argv with extra parsers, configuration streams and files narrow/wide, environment, storing into maps with a history, notifying, lookup, splitting, conversions, unrecognised collection, whole programs, copies, messages) on random tables and inputs; the operation runs once per allocation it makes, that one failing (sampled above 90; four of each kind in full), and for a third of them all later ones too; then again with memory on the same objects; non-trivial: more than three allocations',
    assumptions=['allocation through operator new fails; exceptions themselves come from malloc and do not', 'building descriptions and printing are not part of the statement', 'a message may be shortened while there is no memory for it'])


# C28: the same inputs through differently built libraries
def _v(name, cxx, std, *flags, **kw):
    VARIANTS[name] = dict(cxx=cxx, flags=['-g0', '-pipe', '-std=' + std] + list(flags), **kw)
_v('g-o2', 'g++', 'c++17', '-O2')
_v('g-o0-11', 'g++', 'c++11', '-O0', drvflags=['-std=c++14'])
_v('g-o3-20', 'g++', 'c++20', '-O3', '-DNDEBUG')
_v('g-ndebug-14', 'g++', 'c++14', '-O1', '-DNDEBUG', '-ftrivial-auto-var-init=pattern')
_v('g-shared', 'g++', 'c++17', '-O1', '-fPIC', '-fvisibility=hidden', '-DBOOST_PROGRAM_OPTIONS_DYN_LINK=1', shared=True)
_v('g-nortti', 'g++', 'c++17', '-O1', '-fno-rtti', '-ftrivial-auto-var-init=zero')
_v('c-o2', 'clang++', 'c++17', '-O2', '-DNDEBUG')
_v('c-o0-20', 'clang++', 'c++20', '-O0', '-ftrivial-auto-var-init=pattern')
_v('c-uchar-14', 'clang++', 'c++14', '-O1', '-funsigned-char')
C28_BUILDS = ['g-o2', 'g-o0-11', 'g-o3-20', 'g-ndebug-14', 'g-shared', 'g-nortti', 'c-o2', 'c-o0-20', 'c-uchar-14', 'asan', 'debug']
C28_RUNS = [(b, '0') for b in C28_BUILDS] + [('g-o2', '1'), ('g-o2', '2'), ('g-o2', '3'), ('c-o2', '3')]
def differential(run, p, exes):
    import os, glob, struct, subprocess
    n = p['n'][run.tier]; ref = None
    from __main__ import Inconclusive, ENV
    names = {'0': 'as it is', '1': 'memory holds zeros', '2': 'memory holds ones', '3': 'addresses descend, freed memory is overwritten'}
    def show(b, m, idx, tag):
        f = os.path.join(run.work, 'show-' + tag); e = dict(os.environ); e.update(ENV); e.update(VPM_MEM=m, VPM_SHOW=f)
        subprocess.run([exes[(b, 'c28')], '--seed', str(run.seed), '--n', str(n), '--case', str(idx)], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=run.work)
        r = []
        for x in (f, f + '.in'): r.append(open(x, 'rb').read().decode(errors='backslashreplace') if os.path.exists(x) else '')
        return r
    for b, m in C28_RUNS:
        label = '%s-%s' % (b, m); t = os.path.join(run.work, 'tr-' + label)
        run.part(exes[(b, 'c28')], label, n, env={'VPM_MEM': m, 'VPM_TRANSCRIPT': t}, cpu=120)
        got = {}
        for f in glob.glob(t + '.*'):
            with open(f, 'rb') as h: d = h.read()
            for k in range(len(d) // 24): i, a, o = struct.unpack_from('<QQQ', d, k * 24); got[i] = (a, o)
        if ref is None: ref, refname = got, (b, m); continue
        bad = 0
        for i in sorted(ref):
            if i not in got: continue      # a crash there is reported already
            run.counters['comparisons'] = run.counters.get('comparisons', 0) + 1
            if got[i] == ref[i]: continue
            bad += 1
            if bad > 1: continue
            x, y = show(refname[0], refname[1], i, 'a'), show(b, m, i, 'b')
            if x[1] != y[1]: raise Inconclusive('the generator made different inputs in the builds %s and %s for case %d:\n%s\n%s' % (refname[0], b, i, x[1][:1500], y[1][:1500]))
            lines = [(l, r) for l, r in zip(x[0].split('\n') + [''], y[0].split('\n') + ['']) if l != r]
            l, r = lines[0] if lines else ('the difference comes and goes', '')
            run.violation(label, 'differs-' + b, 'build %s (%s, %s) gives %s\n    build %s gives %s' % (b, ' '.join(VARIANTS[b]['flags']), names[m], r[:600], refname[0], l[:600]), y[1][:1500], i)
        if bad: run.counters['differing-cases'] = run.counters.get('differing-cases', 0) + bad
        run.counters['builds-compared'] = run.counters.get('builds-compared', 0) + 1

SPECS['C28'] = dict(level='exploration', technique='differential runtime monitoring: transcripts of the same operations recorded from eleven builds and four memory disciplines, compared offline', parts=[
        dict(driver='c28', name='c28', variant='g-o2', builds=[(b, 'c28') for b in C28_BUILDS], custom=differential, n=dict(quick=20000, thorough=300000))],
    min={'comparisons': 200000, 'builds-compared': 14, 'command-line': 1000, 'history': 1000, 'config': 1000, 'help': 1000, 'texts': 1000},
    rule='random command lines (narrow, wide, argv), histories of stores and notifications, configuration texts and environments, help output, splitting, conversion, parsing of values and messages; the transcript of every result in eleven builds (two compilers, -O0 to -O3, C++11 to C++20, assertions on/off, shared, no RTTI, sanitizers, checked library, unsigned char, patterned and zeroed stack) and with zeroed, set, descending and overwritten heap memory; non-trivial: distinct inputs')

SPECS['C29'] = dict(level='exploration', parts=[part('c29', 30000, 1000000)],
    min={'enumerated': 100000, 'parsed': 10000, 'several-tokens': 3000, 'stores': 10000, 'values-given': 20000, 'values-continued': 1000, 'defaults-asked': 20000, 'failed-stores': 1000, 'own-errors': 500, 'notified': 4000, 'description-gone': 500, 'user-types': 5000, 'user-types-refused': 200, 'user-types-line': 1000, 'user-types-wide': 500, 'user-types-own-errors': 200},
    rule='value semantics written in the driver (direct and through both conversion helpers; 0-4 to any number of tokens, composing, required, defaulting, throwing four kinds of exception) on histories of command lines, configuration texts and user-made sources stored narrow or as UTF-8, every call on them recorded with serial numbers for the stored objects; types with validate(), stream operators or neither; every token bound x six spellings x all sequences of up to four following tokens; non-trivial: more than two calls in a history, or more than two user-typed options')

SPECS['C30'] = dict(level='exploration', parts=[part('c30', 14000, 800000)],
    min={'stores': 10000, 'map-copies': 5000, 'map-assignments': 300, 'map-swaps': 500, 'map-moves': 1000, 'changed-in-place': 1000, 'own-entries': 3000, 'notified': 3000, 'typed-reads': 15000, 'parser-copies': 900, 'declared-types': 9, 'outlived': 1},
    rule='histories of parsing, storing, copying, assigning, swapping, moving, changing in place, inserting, clearing, notifying and destroying over up to four maps with a reference map each, every entry read as twelve types after every step; copies of parsers and results used after what they were made from is gone; non-trivial: several maps and at least two copies or changes')

SPECS['C31'] = dict(level='exploration', technique='memory-protection monitor (all inputs in read-only pages ending at a guard page and unmapped after the call), process-state and stream-state snapshots around every call, repetition under other left-over state', parts=[
        part('c31', 24000, 900000)],
    min={'narrow-argv': 3000, 'wide-argv': 1500, 'vector-arguments': 4000, 'store': 2000, 'notify': 2000, 'collect': 2000, 'environment': 3000, 'configuration': 2000, 'wide-configuration': 1000, 'configuration-file': 800, 'print': 2000, 'split': 2000, 'value': 5000, 'errors-read-again': 5000, 'blocks-unmapped': 50000, 'deeds-noticed': 7},
    rule='random tables, argument vectors, environments, configuration texts and files, help texts and values, each handed over in read-only memory that ends at a guard page, through streams and in a process whose settings vary; non-trivial: an accepted command line, a text or environment with content',
    assumptions=['only state a program can query is compared: locales, environ, working directory, descriptors, signal actions and mask, umask, rounding mode, handlers, standard streams', 'the fill character, the adjustment and a pending width of an output stream are not varied: padding may honour them'])

# counts what is executed: a call per branch of instrumented code, the loops of the C library are the driver's own
VARIANTS['cost'] = dict(cxx='g++', flags=COMMON + ['-O1', '-fsanitize-coverage=trace-pc', '-fno-builtin'], ldflags=['-ldl'])
SPECS['C32'] = dict(level='exploration', technique='cost monitor: executed library edges (trace-pc), interposed memory and string functions, allocation accounting and stack depth, compared between sizes of the same input', parts=[part('c32', 24000, 600000, variant='cost')],
    min={'meters-tested': 1, 'ended-well': 3000, 'ended-in-error': 1000, 'argument': 100, 'arguments': 100, 'configuration-text': 100, 'split-unix': 100, 'described-text': 100, 'error-text': 100, 'options-and-arguments': 100},
    rule='random repeated texts and numbers of things on 40 axes, each call measured at a size and at 8 or 16 times that size; non-trivial: distinct axis and material')
SPECS['C33'] = dict(level='exploration', parts=[part('c33', 60000, 2000000)],
    min={'declarations': 20000, 'several-settings': 10000, 'optional-value': 3000, 'went-well': 5000, 'refused': 2000, 'bound-compared': 2000, 'equivalents': 2000},
    rule='random sequences of up to eleven settings on nine value types, narrow and wide, asked directly (model), in help, on command lines and in configurations, against the same declaration said in another order, repeated, after other values, with only what counts; functions documented as the same as others; non-trivial: more than two settings')
