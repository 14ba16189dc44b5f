#!/usr/bin/env python3
"""Systematic mutants of /repo, tried on copies under /tmp/mut: which ones compile, pass the repository's tests, and are caught by no check.

mutate.py list            number of mutants per file
mutate.py tests WORKERS [FILTER]        compiles and tests the mutants: 'alive' ones pass the repository's tests
mutate.py run WORKERS [FILTER [KEYS]]   runs the checks on those (of the file KEYS); results in /tmp/mut/results.jsonl
mutate.py bugs WORKERS [FILTER]         runs on each bug of /verif/seeded the check of its property and the ones of ORDER; results in /tmp/mut/matrix.jsonl
"""
import re, os, sys, json, subprocess, shutil, threading, queue, hashlib
MUT = '/tmp/mut'
BASE = MUT + '/base/'  # a copy of /repo, made at the start
FILES = ['src/liboak/ast.rs', 'src/liboak/identifier.rs', 'src/liboak/visitor.rs'] + \
  ['src/liboak/back/' + f for f in 'continuation.rs context.rs mod.rs name_factory.rs'.split()] + \
  ['src/liboak/back/compiler/' + f for f in 'any_single_char.rs spanned_expr.rs value.rs non_terminal.rs str_literal.rs semantic_action.rs syntactic_predicate.rs mod.rs rule.rs optional.rs sequence.rs repeat.rs choice.rs character_class.rs grammar.rs rtype.rs'.split()] + \
  ['src/liboak/middle/typing/' + f for f in 'ast.rs depth.rs surface.rs mod.rs type_rewriting.rs typing_printer.rs'.split()] + ['src/liboak/middle/mod.rs'] + \
  ['src/liboak/middle/analysis/' + f for f in 'ast.rs well_formedness.rs attribute.rs duplicate.rs mod.rs resolve_non_terminal.rs useless_chaining.rs'.split()] + \
  ['src/liboak/front/' + f for f in 'ast.rs mod.rs parser.rs'.split()] + ['src/liboak/lib.rs'] + ['runtime/src/' + f for f in 'parse_state.rs str_stream.rs file_map_stream.rs'.split()]

SUBS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' > ', ' < '), (r'&&', '||'), (r'\|\|(?=\s*[\w!(]+[^|]*$)', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
  (r' \+ 1\b', ' + 2'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '0'), (r'\b1\b(?!\.)', '2'), (r' \+ ', ' - '), (r' - ', ' + '), (r' % ', ' / '), (r' / ', ' % '),
  (r'(?<![=!<>&|\w])!(?=[\w(])', ''), (r'\bif (?!let)', 'if !('), (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''), (r'\.all\(', '.any('), (r'\.any\(', '.all('), (r'\.iter\(\)', '.iter().rev()'), (r'\.into_iter\(\)', '.into_iter().rev()'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
  (r'\.is_empty\(\)', '.len() == 1'), (r'\.cloned\(\)', '.cloned().take(3)'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.push\(', '.insert(0, '), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\bmark\b', 'current'), (r'Greater', 'Less'), (r'Less\b', 'Greater'), (r'\bbreak;', ''), (r'\.dedup\(\);', ''), (r'\.clear\(\);', '.len();'),
  (r'recognizer', 'parser'), (r'parser_compiler', 'recognizer_compiler'), (r'recognizer_compiler', 'parser_compiler'), (r'success', 'failure'), (r'failure', 'success'), (r'\.len\(\)', '.len() + 1'), (r'\bOk\(\(\)\)', 'Ok(())'), (r'\bZeroOrMore\b', 'OneOrMore'), (r'\bOneOrMore\b', 'ZeroOrMore'), (r'AndPredicate', 'NotPredicate'), (r'NotPredicate', 'AndPredicate'),
  (r'\bUnit\b', 'External'), (r'\bRegular\b', 'External'), (r'\.clone\(\)\.', '.'), (r'chars\(\)', 'bytes()'), (r'\bis_unit\b', 'is_not_unit')]

def mutants():
    out = []
    for f in FILES:
        src = open(BASE + f).read()
        cut = re.search(r'^#\[cfg\(test\)\]', src, re.M)
        lines = src.split('\n')
        n = src[:cut.start()].count('\n') if cut else len(lines)
        for i, l in enumerate(lines[:n]):
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('pub use') or s.startswith('extern') or s.startswith('pub mod') or s.startswith('mod '): continue
            seen = set()
            def add(new):
                if new != l and new not in seen: seen.add(new); out.append((f, i, new))
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    if b == 'if !(':
                        t = l[m.end():]
                        k = t.rfind('{')
                        if k < 0: continue
                        add(l[:m.start()] + 'if !(' + t[:k].rstrip() + ') {' + t[k+1:]); continue
                    if a in (r' < ', r' > ') and ('->' in l or '=>' in l[m.start():m.start()+4]): pass
                    add(l[:m.start()] + b + l[m.end():])
            # statements and arms removed
            if re.match(r'^(self|state|expr|[a-z_]+)\.[\w.]+\(.*\);$', s) or re.match(r'^[a-z_.]+ [+\-|&]?= [^=].*;$', s) and not s.startswith('let'): add('')
            if re.match(r'^.*=> .*,?$', s) and not s.endswith('{') and not s.startswith('_ '): add('')
    return out

def key(m): return hashlib.sha1(json.dumps(m).encode()).hexdigest()[:12]

ORDER = {
 'useless_chaining': ['C21', 'C20'], 'well_formedness': ['C07', 'C06', 'C01', 'C22', 'C27', 'C20', 'C30'], 'duplicate': ['C20', 'C31', 'C22', 'C05', 'C30'], 'compiler/grammar.rs': ['C31', 'C24', 'C05', 'C22'], 'middle/mod.rs': ['C20', 'C24', 'C31', 'C22', 'C05'], 'resolve_non_terminal': ['C23', 'C20', 'C22'], 'attribute': ['C20', 'C24', 'C22', 'C05'],
 'typing': ['C25', 'C27', 'C26', 'C04', 'C11', 'C02', 'C03', 'C10', 'C05', 'C22', 'C12', 'C23', 'C20', 'C30'],
 'front': ['C20', 'C19', 'C26', 'C17', 'C18', 'C05', 'C01', 'C22', 'C24', 'C23', 'C10', 'C30'],
 'runtime/src/parse_state': ['C14', 'C09', 'C15', 'C28', 'C08', 'C24', 'C01'], 'runtime/src/str_stream': ['C13', 'C09', 'C16', 'C18', 'C28', 'C15'], 'runtime/src/file_map': ['C16'],
 'character_class': ['C17', 'C08', 'C01', 'C30'], 'str_literal': ['C18', 'C08', 'C01', 'C30'],
 'src/liboak/back': ['C02', 'C32', 'C33', 'C03', 'C05', 'C01', 'C08', 'C11', 'C10', 'C12', 'C23', 'C24', 'C30', 'C22', 'C04'],
 '': ['C02', 'C20', 'C25', 'C07', 'C24', 'C03', 'C05', 'C01', 'C08', 'C10', 'C12', 'C11', 'C22', 'C23', 'C26', 'C27', 'C30', 'C19', 'C21'],
}
def order(f):
    for k, v in ORDER.items():
        if k in f: return v

ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', TERM='xterm', RUSTUP_TOOLCHAIN='1.80.0', RUSTC_BOOTSTRAP='1', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1',
  PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')

def sh(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o = p.communicate(timeout=t)[0]
        return p.returncode, o.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return -9, 'timeout'

class Worker:
    def __init__(self, k):
        self.d = f'{MUT}/w{k}'; self.repo = self.d + '/repo'; self.verif = self.d + '/verif'
        shutil.rmtree(self.d, ignore_errors=True); os.makedirs(self.d)
        subprocess.check_call(['cp', '-a', BASE, self.repo]); shutil.rmtree(self.repo + '/target', ignore_errors=True)
        os.makedirs(self.verif + '/target')
        subprocess.check_call(['cp', '-a', '/verif/harness', self.verif + '/harness'])
        c = open(self.verif + '/harness/Cargo.toml').read().replace('/repo', self.repo); open(self.verif + '/harness/Cargo.toml', 'w').write(c)
        shutil.copy('/verif/known_findings.txt', self.verif + '/known_findings.txt')
        shutil.copy('/tmp/mcx/debug/mc', self.verif + '/mc')
        self.stage = open('/opt/vp/stage_runtime.py').read().replace('"/repo/runtime"', f'"{self.repo}/runtime"')
        open(self.d + '/stage.py', 'w').write(self.stage)
        if PHASE == 2: return
        self.base = self.tests()
        print(k, 'baseline', len(self.base[1]), self.base[0], flush=True)
    def tests(self):
        e = dict(ENV, CARGO_TARGET_DIR=self.repo + '/target')
        r, o = sh(['cargo', 'test', '--offline', '--no-run'], self.repo, e, 300)
        if r != 0: return 'build', set()
        r, o = sh(['cargo', 'test', '--offline', '--no-fail-fast', '--', '--nocapture'], self.repo, e, 200)
        if r == -9: return 'timeout', set()
        st = self.repo + '/target/runtime-stage'; os.makedirs(st, exist_ok=True)
        subprocess.check_call(['python3', self.d + '/stage.py', st])
        r2, o2 = sh(['cargo', 'test', '--offline', '--no-fail-fast'], st, e, 200)
        ok = set(re.findall(r'^test (.*) \.\.\. ok', o + o2, re.M))
        group = ''
        for l in re.sub(r'\x1b?(\[[0-9;]*m|\(B)', '', o).splitlines():
            m = re.search(r'\[ info \] (?:Bulk )?Run and (.+?) tests? of `([^`]+)`', l)
            if m: group = m[2] + m[1]; continue
            m = re.search(r'\[ passed \] (.+?)\s*$', l)
            if m: ok.add(group + m[1])
        return 'ran', ok
    def try_(self, m):
        f, i, new = m
        p = f'{self.repo}/{f}'
        src = open(BASE + f).read().split('\n')
        old = src[i]; src[i] = new
        open(p, 'w').write('\n'.join(src))
        res = {'file': f, 'line': i + 1, 'old': old, 'new': new, 'key': key(m)}
        try:
            e = dict(ENV, CARGO_TARGET_DIR=self.repo + '/target')
            if PHASE == 1:
                r, o = sh(['cargo', 'check', '--offline', '-q'], self.repo, e, 200) if f.startswith('src') else (0, '')
                if r != 0: res['end'] = 'nobuild'; return res
                t = self.tests()
                res['end'] = 'nobuild' if t[0] == 'build' else 'tests' if self.base[1] - t[1] else 'alive'
                return res
            for c in order(f):
                r, o = self.check(c)
                if r == 1: res['end'] = 'caught'; res['by'] = c; res['what'] = '\n'.join(o.split('\n')[:2])[:300]; return res
                if r != 0: res['end'] = 'noanswer'; res['by'] = c; res['what'] = o[:300]; return res
            res['end'] = 'SURVIVES'
            return res
        finally:
            shutil.copy(BASE + f, p)

    def check(self, c):
        e = dict(ENV, VERIF_ROOT=self.verif, MC_REPO=self.repo, MC_FIRST='1', VERIF_TIER='quick', VERIF_SEED='1')
        for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_PROFILE_DEV_DEBUG'): e.pop(k, None)
        return sh([self.verif + '/mc', c], self.verif, e, 900)
    def bug(self, b):
        d = '/verif/seeded/' + b
        prop = json.load(open(d + '/meta.json'))['property']
        subprocess.check_call(['git', '-C', self.repo, 'apply', d + '/patch.diff'])
        try:
            f = re.findall(r'^\+\+\+ b/(.*)$', open(d + '/patch.diff').read(), re.M)[0]
            res = {}
            for c in [prop] + [c for c in order(f) if c != prop]: res[c] = self.check(c)[0]
            return {'bug': b, 'property': prop, 'res': res}
        finally: subprocess.check_call(['git', '-C', self.repo, 'checkout', '-q', '--', '.'])

PHASE = 1 if len(sys.argv) > 1 and sys.argv[1] == 'tests' else 2
if __name__ == '__main__':
    os.makedirs(MUT, exist_ok=True); shutil.rmtree(BASE, ignore_errors=True); subprocess.check_call(['cp', '-a', '/repo', BASE.rstrip('/')]); shutil.rmtree(BASE + 'target', ignore_errors=True)
    ms = mutants()
    if sys.argv[1] == 'list':
        from collections import Counter
        for k, v in Counter(m[0] for m in ms).items(): print(v, k)
        print(len(ms)); sys.exit()
    only = None
    if PHASE == 2 and len(sys.argv) > 4: only = set(open(sys.argv[4]).read().split())
    flt = sys.argv[3] if len(sys.argv) > 3 else ''
    done = set()
    if os.path.exists(MUT + '/results.jsonl'): done = {json.loads(l)['key'] for l in open(MUT + '/results.jsonl') if only is None or json.loads(l)['end'] != 'alive'}
    q = queue.Queue()
    bugs = sys.argv[1] == 'bugs'
    if bugs:
        done = {json.loads(l)['bug'] for l in open(MUT + '/matrix.jsonl')} if os.path.exists(MUT + '/matrix.jsonl') else set()
        for b in sorted(os.listdir('/verif/seeded')):
            if b not in done and re.search(flt, b): q.put(b)
    else:
      for m in ms:
        if key(m) not in done and re.search(flt, m[0]) and (only is None or key(m) in only): q.put(m)
    print('to try', q.qsize(), flush=True)
    lock = threading.Lock()
    def work(k):
        w = Worker(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            if bugs:
                r = w.bug(m)
                with lock:
                    open(MUT + '/matrix.jsonl', 'a').write(json.dumps(r) + '\n')
                    print(r['bug'], r['res'], flush=True)
                continue
            try: r = w.try_(m)
            except Exception as ex: r = {'file': m[0], 'line': m[1] + 1, 'new': m[2], 'key': key(m), 'end': 'error', 'what': str(ex)}
            with lock:
                open(MUT + '/results.jsonl', 'a').write(json.dumps(r) + '\n')
                print(r['end'], r.get('by', ''), r['file'], r['line'], r['new'].strip()[:90], flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(sys.argv[2]))]
    for t in ts: t.start()
    for t in ts: t.join()
