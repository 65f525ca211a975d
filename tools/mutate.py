#!/usr/bin/env python3
"""Small changes to every line of the code, one at a time: which survive the tests and the checks?

  mutate.py list                      the changes, as JSON lines
  mutate.py run LIST K N OUT          those of LIST with index = K mod N; appends JSON lines to OUT

Runs where /repo and /verif are scratch copies (see mutate.sh); never needed by a check.
"""
import json, os, re, subprocess, sys, time

REPO = '/repo'
CHECKS = [
    ('capped_growing_interval', 'C33 C36'), ('data_structures/bitmap', 'C31 C19'), ('data_structures/id', 'C30 C09 C10'),
    ('data_structures/serializable_buf', 'C12 C15 C29'), ('dht/connection', 'C16 C14 C15 C36 C12'),
    ('dht/dht_manager', 'C14 C15 C16 C34 C36'), ('dht/krpc_message', 'C12 C13 C14 C15 C36'), ('dht/peer_fetcher', 'C36'),
    ('dht/mod', 'C34 C16'), ('dht/routing_table', 'C09 C10 C11 C16 C34 C36'), ('fs/file_cache', 'C23 C22 C21'), ('fs/', 'C22 C21 C24 C23'),
    ('peers/active_peers', 'C17 C18 C14 C36 C20'), ('peers/peer.rs', 'C17 C28 C12 C20'), ('peers/connection/message', 'C01 C02 C03'),
    ('peers/connection/handshake', 'C04'), ('peers/connection/pending_pieces', 'C05 C07 C06 C20'),
    ('peers/connection/downloader', 'C06 C07 C08 C20'), ('peers/connection', 'C03 C02 C04 C07 C06 C08 C19 C20'), ('shutdown', 'C32 C34 C29'),
    ('torrent_manager', 'C19 C20'), ('tracker/announce', 'C27 C29'), ('tracker/response', 'C28 C29'), ('tracker/', 'C29 C27'),
    ('transcoding', 'C25 C26 C24'), ('macros', 'C26 C05'),
]

def checks(f):
    for k, c in CHECKS:
        if k in f:
            return c.split()
    return []

OPS = [
    (r'(?<![=!<>+\-*/&|])==(?!=)', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
    (r' < ', ' > '), (r' > ', ' < '), (r'&&', '||'), (r'\|\|(?=\s*\S)(?! *\{)', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '),
    (r' << ', ' >> '), (r' >> ', ' << '), (r' & ', ' | '), (r' \| ', ' & '), (r'\+=', '-='), (r'-=', '+='),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z(])', ''), (r'\bis_some\b', 'is_none'), (r'\bis_none\b', 'is_some'),
    (r'\bis_ok\b', 'is_err'), (r'\bis_err\b', 'is_ok'), (r'cmp::min', 'cmp::max'), (r'cmp::max', 'cmp::min'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
    (r'Ordering::Less', 'Ordering::Greater'), (r'Ordering::Greater', 'Ordering::Less'), (r'saturating_sub', 'wrapping_sub'),
    (r'\.rev\(\)', ''), (r'\.skip\(1\)', ''), (r'\.flush\(\)\.await\?', '.flush().await.ok()'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'),
    (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.filter\(', '.skip_while('), (r'from_be_bytes', 'from_le_bytes'), (r'to_be_bytes', 'to_le_bytes'), (r'\.sort\(\);', '.reverse();'),
]

def code_lines(path):
    """line numbers (from 0) of code that is part of the program"""
    src = open(path).read().split('\n')
    out, skip, depth = [], None, 0
    i = 0
    while i < len(src):
        l = src[i]
        if re.match(r'\s*#\[cfg\((test|nargun_verif)\)\]', l):
            # the item that follows
            d, began = 0, False
            i += 1
            while i < len(src):
                d += src[i].count('{') - src[i].count('}')
                began |= '{' in src[i]
                if (began and d <= 0) or (not began and src[i].rstrip().endswith((';', ','))):
                    break
                i += 1
            i += 1
            continue
        s = l.strip()
        if s and not s.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub mod')) and not re.match(r'(trace|debug|info|warn|error)!', s):
            out.append(i)
        i += 1
    return src, out

def mutants():
    for root, _, files in os.walk(f'{REPO}/src'):
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            if not f.endswith('.rs') or not checks(rel) :
                continue
            src, lines = code_lines(p)
            for i in lines:
                l = src[i]
                done = set()
                def emit(new, op):
                    if new != l and new not in done:
                        done.add(new)
                        return {'file': rel, 'line': i + 1, 'old': l, 'new': new, 'op': op}
                body = l.split('//')[0] if 'http' not in l else l
                if re.match(r'\s*(pub |async |fn |impl|struct|enum|type|where|\})', body) and '=' not in body and 'const' not in body:
                    continue
                for pat, rep in OPS:
                    for m in re.finditer(pat, body):
                        # not in strings
                        if body[:m.start()].count('"') % 2:
                            continue
                        x = emit(l[:m.start()] + rep + l[m.end():], f'{pat}->{rep}')
                        if x: yield x
                for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?![\w.]|\s*\.\.)', body):
                    if body[:m.start()].count('"') % 2:
                        continue
                    n = int(m.group(1).replace('_', ''))
                    for v in ([n + 1, n - 1] if n > 0 else [1]):
                        x = emit(l[:m.start()] + str(v) + l[m.end():], 'const')
                        if x: yield x
                s = body.strip()
                # a statement left out
                if s.endswith(';') and not re.match(r'(let|return|const|static|type|pub|break|continue|\}|\)|\.|bail)', s) and body.count('(') == body.count(')'):
                    x = emit(l[:len(l) - len(l.lstrip())] + '{}', 'drop')
                    if x: yield x
                m = re.match(r'(\s*(?:\} else )?if )(?!let)(.+)( \{)$', body)
                if m:
                    for v in ('true', 'false'):
                        x = emit(f'{m.group(1)}{v}{m.group(3)}', 'if')
                        if x: yield x
                if re.match(r'\s*\.(await|rev|sorted|take|filter|skip)\b', body) is None and re.match(r'\s*return\b.*;$', body):
                    pass

def sh(cmd, t):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
    finally:
        # what it started too
        try:
            os.kill(-1, 9) if os.getpid() == 1 else os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass

def run(lst, k, n, out):
    ms = [json.loads(l) for l in open(lst)]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('bash /opt/vp/build.sh', 600)
    sh('bash /opt/vp/test.sh /tmp/mt.json', 200)
    lost = stable - set(json.load(open('/tmp/mt.json'))['passed'])
    assert not lost, lost
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['i'] for l in open(out)}
    for i, m in enumerate(ms):
        if i % n != k or i in done:
            continue
        p = f"{REPO}/{m['file']}"
        orig = open(p).read()
        lines = orig.split('\n')
        assert lines[m['line'] - 1] == m['old'], m
        lines[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(lines))
        r = dict(m, i=i)
        t0 = time.time()
        try:
            rc, o = sh('bash /opt/vp/build.sh', 200)
            if rc:
                r['end'] = 'no build'
            else:
                sh('rm -f /tmp/mt.json; bash /opt/vp/test.sh /tmp/mt.json', 60)
                try:
                    t = json.load(open('/tmp/mt.json'))
                    ok = set(t.get('passed', []))
                except Exception:
                    ok = set()
                if stable - ok:
                    r['end'] = 'tests'
                else:
                    r['end'], r['ran'] = 'SURVIVED', {}
                    for c in checks(m['file']):
                        rc, o = sh(f'bash /verif/check.sh {c} quick', 400)
                        r['ran'][c] = rc
                        if rc == 1:
                            r['end'] = c
                            r['why'] = '\n'.join(x for x in o.split('\n') if 'failed' in x or 'hung' in x)[:400]
                            break
                        if rc != 0:
                            r['end'] = f'{c} rc={rc}'
                            r['why'] = o[-400:]
                            break
        finally:
            open(p, 'w').write(orig)
        r['s'] = round(time.time() - t0, 1)
        open(out, 'a').write(json.dumps(r) + '\n')

if sys.argv[1] == 'list':
    for m in mutants():
        print(json.dumps(m))
else:
    run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
