#!/usr/bin/env python3
"""Mutation testing of the checks (development aid; no check uses it).

mutate.py list                     all mutants, one JSON per line -> /tmp/mut/all.jsonl
mutate.py tests N                  which mutants build and pass the stable tests -> /tmp/mut/live.jsonl
mutate.py checks N [all]           which of those the checks catch -> /tmp/mut/result.jsonl
N workers, each with its own copy of /repo and of the harness under /tmp/mut.
"""
import json, os, re, shutil, subprocess, sys, threading, queue, random

REPO = os.environ.get('MUT_REPO', '/repo')
WORK = '/tmp/mut'
# Which checks look at which file (first the most direct ones).
MAP = {
 'orientation.rs': ['C01', 'C02', 'C03', 'C04', 'C06', 'C25'],
 'lib.rs': ['C01', 'C02', 'C03', 'C12', 'C13', 'C24', 'C25'],
 'utils.rs': ['C09', 'C21', 'C22', 'C23', 'C16'],
 'matrix.rs': ['C24'], 'transformation.rs': ['C24'], 'intersection.rs': ['C05', 'C06', 'C08'],
 'directed_edge.rs': ['C05', 'C06', 'C08', 'C09', 'C21'],
 'line.rs': ['C06', 'C07', 'C17', 'C19', 'C25'],
 'line_segment.rs': ['C05', 'C08', 'C09', 'C16', 'C06'],
 'intersection_set.rs': ['C22', 'C16'],
 'point.rs': ['C01', 'C02', 'C03', 'C13', 'C24', 'C18', 'C12'],
 'point/add.rs': ['C24'], 'point/sub.rs': ['C24'],
 'vector.rs': ['C02', 'C03', 'C24', 'C01', 'C17'], 'vector/add.rs': ['C24'], 'vector/sub.rs': ['C24'], 'vector/mul.rs': ['C24'], 'vector/div.rs': ['C24'],
 'triangle.rs': ['C11', 'C12', 'C15', 'C26'],
 'polygon.rs': ['C09', 'C10', 'C12', 'C21', 'C26', 'C15', 'C24'],
 'polygon/iter.rs': ['C21'], 'polygon/convex.rs': ['C11', 'C20', 'C13', 'C09', 'C24'],
 'zhash.rs': ['C23', 'C15'], 'earclip.rs': ['C15', 'C25', 'C26'], 'melkman.rs': ['C14'],
 'gift_wrapping.rs': ['C13'], 'graham_scan.rs': ['C13'], 'two_opt.rs': ['C16', 'C25'],
 'monotone.rs': ['C17'], 'star.rs': ['C18'], 'visibility/naive.rs': ['C19'], 'intersection/naive.rs': ['C08'],
}
SUBS = [
 (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ', ' >= ']), (r' >= ', [' > ', ' <= ']),
 (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
 (r' \+ ', [' - ']), (r'(?<!-) - ', [' + ']), (r' \* ', [' + ']), (r' % ', [' / ']), (r' << ', [' >> ']), (r' >> ', [' << ']),
 (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \| ', [' & ']), (r' & ', [' | ']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1', '3']),
 (r'(?<=\.)0\b', ['1']), (r'(?<=\.)1\b', ['0']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]', '[2]']),(r'\[2\]', ['[1]']),
 (r'(?<=[( ])!(?=[a-z(])', ['']),
 (r'\bClockWise\b', ['CounterClockWise', 'CoLinear']), (r'\bCounterClockWise\b', ['ClockWise', 'CoLinear']), (r'\bCoLinear\b', ['ClockWise', 'CounterClockWise']),
 (r'\bLess\b', ['Greater', 'Equal']), (r'\bGreater\b', ['Less', 'Equal']), (r'\bEqual\b', ['Less', 'Greater']),
 (r'\bis_ccw\b', ['is_cw', 'is_colinear']), (r'\bis_cw\b', ['is_ccw', 'is_colinear']), (r'\bis_colinear\b', ['is_cw', 'is_ccw']),
 (r'\bis_some\b', ['is_none']), (r'\bis_none\b', ['is_some']), (r'\bprev\b', ['next']), (r'\bnext\b(?!\()', ['prev']), (r'\.next\(\)', ['.prev()']),
 (r'\bx_coord\b', ['y_coord']), (r'\by_coord\b', ['x_coord']), (r'\bInclusive\b', ['Exclusive']), (r'\bExclusive\b', ['Inclusive']),
 (r'\bLeft\b', ['Right']), (r'\bRight\b', ['Left']), (r'\bsrc\b', ['dst']), (r'\bdst\b', ['src']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
 (r'\bfirst\b', ['last']), (r'\blast\b', ['first']), (r'_front\b', ['_back']), (r'_back\b', ['_front']),
 (r'\.rev\(\)', ['']), (r'\.reverse\(\)', ['']), (r'\.skip\(1\)', ['', '.skip(2)']), (r'\.then\(.*\)', ['']), (r'\.then_with\(.*\)', ['']),
 (r'\bOnBoundary\b', ['Inside', 'Outside']), (r'\bInside\b', ['OnBoundary', 'Outside']), (r'\bOutside\b', ['OnBoundary', 'Inside']),
 (r'\bcontinue\b', ['break']), (r'\bbreak\b', ['continue']), (r'\bany\b', ['all']), (r'\ball\b', ['any']),
 (r'\.\.=', ['..']), (r'(?<=[\w)])\.\.(?=[\w(])', ['..=']),
 (r'^(\s*)if (?!let)(.*) \{$', [r'\1if true {', r'\1if false {']),
 (r'^(\s*)\} else if (?!let)(.*) \{$', [r'\1} else if true {', r'\1} else if false {']),
 (r'^(\s*)while (?!let)(.*) \{$', [r'\1while false {']),
 (r'^(\s*)[a-z_][\w.:]*\(.*\);$', ['']), (r'^(\s*)[a-z_*][\w.\[\]]* [+-]?= .*;$', ['']),
 (r'\bself\b(?=\.(?!clone))', ['other']), (r'\bother\b', ['self']),
 (r'\ba\b', ['b']), (r'\bb\b', ['a']), (r'\bp\b', ['q']), (r'\bq\b', ['p']), (r'\bp1\b', ['p2']), (r'\bp2\b', ['p1', 'p3']), (r'\bp3\b', ['p2']),
 (r'\bor_else\b', ['and_then']), (r'\bbreak_ties\b', ['']), (r'\bunwrap_or\(', ['unwrap_or(1 + ']),
]

def files():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f != 'testing.rs' and f.endswith('.rs'):
                out.append(p)
    return sorted(out)

def mutants():
    res = []
    for p in files():
        lines = open(f'{REPO}/{p}').read().split('\n')
        skip = False
        pend = 0
        for i, l in enumerate(lines):
            if '#[cfg(test)]' in l:
                # everything up to the end of that item; test modules close their files here
                rest = '\n'.join(lines[i + 1:])
                if re.match(r'\s*(pub )?mod \w+ \{', rest) or re.match(r'\s*#', rest) and 'mod ' in rest[:200]:
                    break
            t = l.strip()
            if not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'debug_assert', 'assert')):
                continue
            code = l.split(' // ')[0]
            if re.match(r'\s*(pub |impl|fn |where|type |pub\(crate\)|struct|enum|trait)', code) and not ('{' in code and '}' in code):
                continue
            seen = set()
            for pat, reps in SUBS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        new = code[:m.start()] + m.expand(r) + code[m.end():]
                        if new == code or new in seen: continue
                        seen.add(new)
                        res.append(dict(id=len(res), file=p, line=i + 1, old=l, new=new))
    return res

class Worker:
    def __init__(self, n):
        self.d = f'{WORK}/w{n}'
        self.repo = self.d + '/repo'
        if not os.path.isdir(self.repo):
            os.makedirs(self.d, exist_ok=True)
            subprocess.check_call(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', REPO + '/', self.repo + '/']) if shutil.which('rsync') else subprocess.check_call(f"mkdir -p {self.repo} && cd {REPO} && tar cf - --exclude=./target --exclude=./.git . | (cd {self.repo} && tar xf -)", shell=True)
            os.makedirs(self.d + '/v')
            subprocess.check_call(['cp', '-a', '/verif/harness', self.d + '/v/harness'])
            for t in ('/Cargo.toml', '/vcore/Cargo.toml'):
                f = self.d + '/v/harness' + t
                s = open(f).read().replace('"/repo"', f'"{self.repo}"')
                open(f, 'w').write(s)
        self.env = dict(os.environ, RUSTUP_TOOLCHAIN='1.83.0-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
            CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', PROPTEST_RNG_SEED='20250129', PROPTEST_MAX_SHRINK_TIME='2000', CARGO_BUILD_JOBS='2')
    def apply(self, m):
        p = f"{self.repo}/{m['file']}"
        ls = open(f"{REPO}/{m['file']}").read().split('\n')
        ls[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(ls))
    def undo(self, m):
        shutil.copyfile(f"{REPO}/{m['file']}", f"{self.repo}/{m['file']}")
    def sh(self, cmd, cwd, t, env=None):
        try:
            r = subprocess.run(cmd, cwd=cwd, env={**self.env, **(env or {})}, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, start_new_session=True)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            subprocess.run(['pkill', '-9', '-f', self.d + '/'])
            return 124, ''
    def tests(self, m):
        e = dict(CARGO_TARGET_DIR=self.d + '/tt', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_TEST_OPT_LEVEL='1', CARGO_PROFILE_DEV_OPT_LEVEL='1')
        rc, o = self.sh('cargo test --workspace --lib --no-run --offline 2>&1', self.repo, 300, e)
        if rc: return 'nobuild'
        # Fewer proptest cases than the real run: what survives is a superset.
        p = subprocess.Popen('timeout -k 2 40 cargo test --workspace --lib --offline -- --test-threads 2', shell=True, cwd=self.repo, start_new_session=True,
            env={**self.env, **e, 'PROPTEST_CASES': '48'}, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        verdict = None
        for l in p.stdout:
            if re.match(r'test .* FAILED', l):
                verdict = 'killed'
                break
        if verdict:
            subprocess.run(['pkill', '-9', '-f', self.d + '/tt/'])
            p.stdout.read()
        rc = p.wait()
        return verdict or ('live' if rc == 0 else 'killed')

    def checks(self, m, which):
        h = self.d + '/v/harness'
        e = dict(CARGO_TARGET_DIR=self.d + '/ht', CARGO_INCREMENTAL='0', VERIF_THREADS='2', VERIF_ROOT=self.d + '/v', VERIF_SEED='1', VERIF_TIER='quick')
        for c in which:
            rc, o = self.sh(f'cargo build --release --offline --locked --bin {c.lower()}', h, 900, e)
            if rc: return 'nobuild:' + c
            rc, o = self.sh(f'timeout -k 5 400 {self.d}/ht/release/{c.lower()}', self.d + '/v', 450, e)
            if rc == 1: return 'caught:' + c
            if rc: return f'rc{rc}:' + c
        return 'MISSED'

def run(items, n, fn, out):
    q = queue.Queue()
    for m in items: q.put(m)
    lock = threading.Lock()
    def go(k):
        w = Worker(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            w.apply(m)
            try: r = fn(w, m)
            finally: w.undo(m)
            with lock:
                with open(out, 'a') as f: f.write(json.dumps(dict(m, result=r)) + '\n')
    ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]

def load(p):
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []

if __name__ == '__main__':
    os.makedirs(WORK, exist_ok=True)
    cmd = sys.argv[1]
    if cmd == 'list':
        ms = mutants()
        with open(WORK + '/all.jsonl', 'w') as f:
            for m in ms: f.write(json.dumps(m) + '\n')
        print(len(ms))
    elif cmd == 'tests':
        done = {m['id'] for m in load(WORK + '/live.jsonl')}
        items = [m for m in load(WORK + '/all.jsonl') if m['id'] not in done]
        random.Random(7).shuffle(items)
        run(items, int(sys.argv[2]), lambda w, m: w.tests(m), WORK + '/live.jsonl')
    elif cmd == 'checks':
        done = {m['id'] for m in load(WORK + '/result.jsonl')}
        items = [m for m in load(WORK + '/live.jsonl') if m['result'] == 'live' and m['id'] not in done]
        def fn(w, m):
            f = m['file']
            best = max((k for k in MAP if f.endswith(k)), key=len, default=None)
            # Then those that look at everything.
            return w.checks(m, MAP.get(best, []) + ['C27', 'C28', 'C31', 'C29', 'C30'])
        run(items, int(sys.argv[2]), fn, WORK + '/result.jsonl')
