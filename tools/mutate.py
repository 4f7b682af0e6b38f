#!/usr/bin/env python3
"""Mutation testing of the checks: changes one token of a source file at a time in scratch copies of /repo and
reports which changes no check notices.   mutate.py OUT N JOBS FILE[:P01,P02...] ...
"""
import os, re, random, subprocess, sys, shutil, threading, queue, time

OUT, N, JOBS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut"); SRC = "/repo"; VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\b0\b(?!\.)', ['1']), (r'\b1\b(?!\.)', ['0', '2']), (r'\b2\b', ['1', '3']), (r'\b3\b', ['2']), (r'0\.5\b', ['1']), (r'\b1\.0?\b', ['2']),
       (r'\.x\b', ['.y']), (r'\.y\b', ['.z', '.x']), (r'\.z\b', ['.x']), (r'([( ])-(?=[a-z(])', [r'\1']), (r'std::abs\(', ['(']), (r'\bcos\(', ['sin(']), (r'\bsin\(', ['cos(']),
       (r'([a-z_])A\b', [r'\1B']), (r'([a-z_])B\b', [r'\1A']), (r'([a-z_])0\b', [r'\g<1>1']), (r'([a-z_])1\b', [r'\g<1>0']), (r'([a-z_])1\b', [r'\g<1>2']),
       (r'\bif \((?!constexpr)(.*)\) \{$', [r'if (!(\1)) {', r'if (false) {', r'if (true) {']), (r'\b(continue|break);', [';']), (r'\+\+', ['--']),
       (r'^(\s+)[A-Za-z_][\w.\[\]>-]* (\+=|-=|\*=|/=|=) .*;$', [r'\1;']), (r'^(\s+)[a-z_][\w.>-]*\(.*\);$', [r'\1;']), (r'\bnormalize\(', ['(']),
       (r'EDYN_EPSILON', ['scalar(0.1)', 'scalar(0)']), (r'support_feature_tolerance', ['scalar(0)'])]

def mutants(path):
    text = open(os.path.join(SRC, path)).read().split('\n'); out = []; block = False
    for i, l in enumerate(text):
        s = l.strip()
        if '/*' in s: block = True
        if block:
            if '*/' in s: block = False
            continue
        if not s or s.startswith(('//', '#', '*', 'using', 'namespace', 'template', 'static_assert', 'EDYN_ASSERT', 'class', 'struct', 'public', 'private')): continue
        code = l.split('//')[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    n = code[:m.start()] + m.expand(r) + code[m.end():]
                    if n != code: out.append((i, l, n))
    return text, out

def main():
    jobs = queue.Queue()
    rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
    for spec in sys.argv[4:]:
        path, _, props = spec.partition(':')
        text, ms = mutants(path); rnd.shuffle(ms); seen = {}; pick = []
        for m in ms:  # spread over the lines
            if seen.get(m[0], 0) < 2: pick.append(m); seen[m[0]] = seen.get(m[0], 0) + 1
            if len(pick) == N: break
        for m in pick: jobs.put((path, props.split(','), text, m))
    print(jobs.qsize(), "mutants", flush=True); lock = threading.Lock(); stat = {}
    def work(k):
        w = f"{ROOT}/w{k}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        subprocess.run(f"mkdir {w}/repo && cp -a {SRC}/include {SRC}/src {w}/repo/ && mkdir {w}/verif && cd {VERIF} && cp -a check.py checks.py harness pbt stubs minientt known_findings.txt {w}/verif/", shell=True, check=True)
        env = dict(os.environ, EDYN_REPO=f"{w}/repo", EDYN_VBUILD=f"{w}/build", VERIF_SEED="1")
        while True:
            try: path, props, text, (i, old, new) = jobs.get_nowait()
            except queue.Empty: return
            f = f"{w}/repo/{path}"; t = list(text); t[i] = new; open(f, "w").write('\n'.join(t)); res = "SURVIVED"
            for p in props:
                try: r = subprocess.run(["python3", "check.py", p] + os.environ.get("MUT_ARGS", "").split(), cwd=f"{w}/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=int(os.environ.get("MUT_TIMEOUT", "300")))
                except subprocess.TimeoutExpired: res = "timeout " + p; break
                if r.returncode == 2: res = "nobuild"; break
                if r.returncode == 1: res = "killed " + p; break
            open(f, "w").write('\n'.join(text))
            with lock:
                stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
                open(OUT, "a").write(f"{res}\t{path}:{i+1}\n    - {old.strip()}\n    + {new.strip()}\n" if res == "SURVIVED" or res.startswith("timeout") else f"{res}\t{path}:{i+1}\n")
        
    ts = [threading.Thread(target=work, args=(k,)) for k in range(JOBS)]
    [t.start() for t in ts]; [t.join() for t in ts]; print(stat)
main()
