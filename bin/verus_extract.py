"""Mechanical extraction of real functions from /repo into Verus units, and the verifier run.

A unit is a file verus/<unit>.rs: ordinary Verus text (spec functions, lemmas, contracts of leaves) with
directives that are replaced on every run by the text of the current source:

  //@item FILE :: struct NAME            (struct, enum, const, static, type, trait)
  //@fn FILE :: HEADER :: NAME           HEADER: `-` for a free function, else the text of the impl/trait header
                                         FILE may be @expanded:CRATE/mod/path (rustc's own macro expansion of that module)
  //@stub FILE                           as //@use, but every function becomes its contract only (the unit that uses FILE proves the bodies)
  //@constfn FILE :: HEADER :: [static] NAME   the constant's initialiser as `fn v_NAME() -> (r: TYPE)` (constants with a contract)
  //@use FILE K=V ...                    includes verus/FILE (shared unit text, itself expanded; @K@ stands for V)
followed by option lines, each owning the plain lines after it up to the next option or `//@end`:
  //@ ret NAME          names the return value
  //@ spec              requires/ensures/decreases, put before the body
  //@ loop K [IT]       invariants for the K-th loop (1-based); IT names the ghost iterator of a `for`
  //@ begin | end | tail   ghost text at body start / body end / before the tail expression
  //@ lbegin K | lend K    ghost text at start / end of the K-th loop body
  //@ before RE | after RE  ghost text before / after the statement whose text matches RE
  //@ sub RE => REPL    documented textual rewrite (unsupported construct -> equivalent one)
  //@ attr TEXT         attribute put before the function
  //@ vis none          drop the visibility (trait impls)
  //@end

What the extraction drops or changes everywhere: comments, attributes, debug_assert*! statements, `for` over slice chunk and element
iterators (chunks, chunks_exact, iter, zip, enumerate) becomes the same loop over an index range, `const` of
`const fn`, and `pub(crate)`/`pub(super)`/private visibility become `pub`. Everything else is the source text;
every `sub` is listed in the evidence. An anchor that is not found loses its hint, and then a failed proof is
reported as undecided, never as a violation.
"""
import os, re, json, subprocess, time, threading
from functools import lru_cache

def setup(g): globals().update({k: g[k] for k in ('V', 'REPO', 'PID', 'TIER', 'WORK', 'log', 'left', 'run')})

class Lost(Exception): pass

TOK = re.compile(r'''
 (?P<lc>//[^\n]*)|(?P<bc>/\*)|(?P<rs>b?r(?P<h>\#*)")|(?P<s>b?"(?:[^"\\]|\\.)*")|(?P<c>b?'(?:[^'\\\n]|\\[^\n]+?)')(?!\w)|(?P<lt>'[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_]\w*)|(?P<num>[0-9][0-9A-Za-z_.]*)|(?P<ws>\s+)|(?P<op>[^\s\w])''', re.X | re.S)

@lru_cache(maxsize=4096)
def lex(t): return tuple(lexi(t, 0))

def lexi(t, i):
    while i < len(t):
        m = TOK.match(t, i)
        if not m: i += 1; continue
        k = m.lastgroup; e = m.end()
        if k == 'bc':
            d, e = 1, m.end()
            while d and e < len(t):
                if t.startswith('/*', e): d += 1; e += 2
                elif t.startswith('*/', e): d -= 1; e += 2
                else: e += 1
        elif k == 'rs':
            e = t.index('"' + (m.group('h') or ''), m.end()) + 1 + len(m.group('h') or '')
        elif k == 'num':
            s = m.group('num')
            if '..' in s: s = s[:s.index('..')]; e = m.start() + len(s)   # 0..n
            elif re.search(r'\.[A-Za-z_]', s): s = s[:s.index('.')]; e = m.start() + len(s)
        yield (k, t[i:e]); i = e

def strip_comments(t):
    o = []
    for k, s in lex(t):
        if k in ('lc', 'bc'): o.append('\n' * s.count('\n') or ' ')
        else: o.append(s)
    return ''.join(o)

def close(t, i):
    """index after the bracket matching t[i] (comments already stripped)"""
    pairs = {'(': ')', '[': ']', '{': '}'}
    d, pos = 0, i
    for k, s in lexi(t, i):
        if k == 'op' and s in '([{': d += 1
        elif k == 'op' and s in ')]}':
            d -= 1
            if d == 0: return pos + 1
        pos += len(s)
    raise Lost('unbalanced')

@lru_cache(maxsize=4096)
def strip_attrs(t):
    while True:
        m = re.search(r'#!?\s*\[', strip_strings(t))
        if not m: return t
        t = t[:m.start()] + t[close(t, m.end() - 1):]

@lru_cache(maxsize=4096)
def strip_strings(t):
    return ''.join(('"' + '_' * (len(s) - 2) + '"' if k == 's' else ('_' * len(s) if k in ('rs', 'c') else s)) for k, s in lex(t))

def drop_debug_asserts(t):
    while True:
        m = re.search(r'\bdebug_assert(_eq|_ne)?!\s*\(', strip_strings(t))
        if not m: return t
        e = close(t, m.end() - 1)
        m2 = re.match(r'\s*;', t[e:])
        t = t[:m.start()] + t[e + (m2.end() if m2 else 0):]

norm = lambda s: re.sub(r'\s+', '', s)
CACHE = {}
def source(f):
    p = os.path.join(REPO, f)
    if f.startswith('@expanded:'):
        with EXPLOCK:
            if p not in CACHE: CACHE[p] = expanded_module(*f[len('@expanded:'):].split('/', 1))
        return CACHE[p]
    if p not in CACHE:
        CACHE[p] = expand_macros(strip_comments(open(p).read()))
    return CACHE[p]

EXPLOCK = threading.RLock()
def expanded_module(crate, path):
    """@expanded:CRATE/mod/path: the module's text after rustc's own macro expansion (rustc -Zunpretty=expanded of the current tree), without
    `use crate::..` statements and `crate::..` path prefixes; for functions generated by macros with repetitions"""
    if crate not in CACHE:
        tgt = os.path.join(globals().get('WORK') or os.environ.get('VT', '/tmp/vt'), 'expand_target')
        r = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--manifest-path', f'{REPO}/{crate}/Cargo.toml', '--', '-Zunpretty=expanded'],
            env={**os.environ, 'CARGO_TARGET_DIR': tgt}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO)
        if r.returncode: raise Lost(f'{crate}: macro expansion failed: ' + r.stderr.decode(errors='replace')[-300:])
        CACHE[crate] = strip_comments(r.stdout.decode())
    t = CACHE[crate]
    for m in path.split('/'):
        k = re.search(r'\bmod\s+' + m + r'\s*\{', t)
        if not k: raise Lost(f'{crate}: no module {path}')
        t = t[k.end():close(t, k.end() - 1) - 1]
    t = re.sub(r'\buse\s+crate::[\w:]+;', '', t)
    return re.sub(r'\bcrate::(?:[a-z]\w*::)+', '', t)

def expand_macros(t):
    """appends the expansions of single-arm macro_rules! that are invoked at the top level of the same file (fragments without repetition)"""
    out = []
    for m in re.finditer(r'\bmacro_rules!\s*(\w+)\s*\{', t):
        e = close(t, m.end() - 1); body = t[m.end():e - 1].strip()
        if not body.startswith('('): continue
        pe = close(body, 0); pat = body[1:pe - 1]
        r = re.match(r'\s*=>\s*\{', body[pe:])
        if not r: continue
        be = close(body, pe + r.end() - 1)
        if body[be:].strip(' ;\n'): continue          # more than one arm
        txt = body[pe + r.end():be - 1]
        if '$(' in txt: continue
        toks = [s for k, s in lex(pat) if k != 'ws']; names = []; rx = []; i = 0
        while i < len(toks):
            if toks[i] == '$' and i + 3 < len(toks) and toks[i + 2] == ':':
                names.append(toks[i + 1]); rx.append(r'(.+?)' if toks[i + 3] in ('expr', 'ty', 'tt') else r'([\w]+)'); i += 4
            else: rx.append(re.escape(toks[i])); i += 1
        for c in re.finditer(r'(?m)^' + m.group(1) + r'!\s*\(', t):
            ce = close(t, c.end() - 1); a = re.match(r'\s*' + r'\s*'.join(rx) + r'\s*,?\s*$', t[c.end():ce - 1], re.S)
            if not a: continue
            x = txt
            for n, v in zip(names, a.groups()): x = re.sub(r'\$' + n + r'\b', v.strip(), x)
            out.append(x)
    return t + ''.join('\n' + x for x in out)

@lru_cache(maxsize=None)
def items(t, lo=0, hi=None):
    """top-level items in t[lo:hi]: (kind, header text, start, body_start or None, end)"""
    hi = len(t) if hi is None else hi
    toks = lex(t[lo:hi]); pos = lo; n = len(toks); out = []
    i = 0; starts = []; p = lo
    for k, s in toks: starts.append(p); p += len(s)
    starts.append(p)
    while i < n:
        k, s = toks[i]
        if k == 'id' and s in ('fn', 'impl', 'mod', 'struct', 'enum', 'trait', 'const', 'static', 'type', 'macro_rules', 'unsafe', 'pub', 'async', 'extern', 'use'):
            st = starts[i]; j = i; kind = None; d = 0
            while j < n:
                kk, ss = toks[j]
                if kk == 'id' and kind is None:
                    if ss in ('fn', 'impl', 'mod', 'struct', 'enum', 'trait', 'static', 'type', 'macro_rules', 'use'): kind = ss
                    elif ss == 'const':
                        nx = [x[1] for x in toks[j + 1:j + 8] if x[0] != 'ws']
                        if not nx or nx[0] not in ('fn', 'unsafe', 'extern', 'async'): kind = 'const'
                if kk == 'op' and ss in '([': d += 1
                if kk == 'op' and ss in ')]': d -= 1
                if kk == 'op' and ss == '{' and d == 0 and kind in ('const', 'static', 'type', 'use'): 
                    e = close(t, starts[j])
                    while j < n and starts[j] < e: j += 1
                    continue
                if kk == 'op' and ss == '{' and d == 0 and not (kind in ('fn', 'impl') and re.search(r'<\s*$', t[st:starts[j]])) and not re.search(r'[<,]\s*$', t[st:starts[j]]):
                    e = close(t, starts[j]); out.append((kind, t[st:starts[j]], st, starts[j], e))
                    while j < n and starts[j] < e: j += 1
                    break
                if kk == 'op' and ss == '{' and d == 0:      # const generic argument in braces
                    e = close(t, starts[j])
                    while j < n and starts[j] < e: j += 1
                    continue
                if kk == 'op' and ss == ';' and d == 0:
                    out.append((kind, t[st:starts[j]], st, None, starts[j] + 1)); j += 1
                    break
                j += 1
            i = max(j, i + 1)
        elif k == 'op' and s in '([{':
            e = close(t, starts[i])
            while i < n and starts[i] < e: i += 1
        else: i += 1
    return out

NESTED = re.compile(r'(?<=[;{}])\s*(fn\s+\w+)')
def nested(t, lo, hi):
    """[(name, start, brace, end)] of function items inside the body t[lo:hi]"""
    out = []; i = lo
    while True:
        m = NESTED.search(t, i, hi)
        if not m: return out
        br = t.index('{', m.end()); e = close(t, br); out.append((m.group(1).split()[1], m.start(1), br, e)); i = e - 1

def find_fn(f, header, name):
    t = source(f)
    if '/' in name:
        outer, inner = name.split('/'); _, x = find_fn(f, header, outer)
        for n, s, br, e in nested(t, x[3], x[4]):
            if n == inner: return t, ('fn', t[s:br], s, br, e)
        raise Lost(f'{f}: no function {name}')
    idx = 0
    m = re.match(r'(.*)#(\d+)$', name)
    if m: name, idx = m.group(1), int(m.group(2)) - 1
    def in_range(lo, hi):
        return [x for x in items(t, lo, hi) if x[0] == 'fn' and re.search(r'\bfn\s+' + re.escape(name) + r'\b', x[1])]
    if header == '-': c = in_range(0, None)
    else:
        want = norm(header); c = []
        for x in items(t):
            if x[0] in ('impl', 'trait', 'mod') and x[3] is not None:
                h = re.sub(r'^(pub(\([^)]*\))?)', '', norm(strip_attrs(x[1])))
                if h == want or (x[0] == 'trait' and re.match(re.escape(want) + r'[:<]', h)): c += in_range(x[3] + 1, x[4] - 1)
    if len(c) <= idx: raise Lost(f'{f}: no function {header} :: {name}')
    return t, c[idx]

def find_item(f, kind, name, header=None):
    t = source(f); its = items(t)
    if header:
        want = norm(header); sub = []
        for x in its:
            if x[0] in ('impl', 'trait') and x[3] is not None and norm(strip_attrs(x[1])) == want: sub += items(t, x[3] + 1, x[4] - 1)
        its = sub
    for x in its:
        if x[0] == kind and re.search(r'\b' + kind + r'\s+(mut\s+)?' + re.escape(name) + r'\b', x[1]):
            return t[x[2]:x[4]]
    raise Lost(f'{f}: no {kind} {name}')

def fix_vis(s, vis=True):
    s = re.sub(r'\bpub\s*\([^)]*\)\s*', '', s); s = re.sub(r'^\s*pub\s+', '', s)
    return ('pub ' if vis else '') + s.lstrip()

def clean(s):
    s = re.sub(r'\|_\|', '|_e|', drop_debug_asserts(strip_attrs(s)))
    s = re.sub(r'\bu(16|32|64|128)::from_(be|le)_bytes\(', r'v_u\1_from_\2_bytes(', s)
    return re.sub(r'\.(to_(?:be|le)_bytes)\(\)', r'.v_\1()', re.sub(r'\.try_into\(\)\s*\.unwrap\(\)', '.v_try_into_unwrap()', s))     # see VBytes, VArr in verus/std.rs

LOOPKW = re.compile(r'\b(for|while|loop)\b')
def loops(body):
    """[(keyword pos, brace pos, end)] of loops in body text, source order"""
    b = strip_strings(body); out = []
    for m in LOOPKW.finditer(b):
        if b[m.end():].lstrip().startswith('<'): continue          # for<'a>
        pre = b[:m.start()].rstrip()
        if pre.endswith('.') : continue
        d = 0; i = m.end()
        while i < len(b):
            ch = b[i]
            if ch in '([': d += 1
            elif ch in ')]': d -= 1
            elif ch == '{' and d == 0: break
            i += 1
        if i >= len(b): continue
        out.append((m.start(), i, close(b, i)))
    return out

def stmts(body):
    """[(start, end)] of statements at every nesting depth (end after ; or block)"""
    b = strip_strings(body); res = []
    def block(i, e):      # i: after '{'; e: index of '}'
        st = i; j = i
        while j < e:
            ch = b[j]
            if ch in '([':
                q = close(b, j); inner(j + 1, q - 1); j = q; continue
            if ch == '{':
                q = close(b, j); block(j + 1, q - 1); j = q
                seg = b[st:j].lstrip(); rest = b[j:e].lstrip()
                if re.match(r'(if|for|while|loop|match|unsafe|proof|fn|const fn|impl)\b|\{|\'\w+:', seg) and not re.match(r'(else\b|\.|\?|;)', rest):
                    res.append((st, j)); st = j
                continue
            if ch == ';': res.append((st, j + 1)); st = j + 1
            j += 1
        if b[st:e].strip(): res.append((st, e))
    def inner(i, e):
        j = i
        while j < e:
            if b[j] == '{': q = close(b, j); block(j + 1, q - 1); j = q; continue
            j += 1
    o = b.index('{'); block(o + 1, close(b, o) - 1)
    return res

def tail_pos(body):
    b = strip_strings(body); o = b.index('{'); e = close(b, o) - 1
    top = [s for s in stmts(body)]
    # last statement at depth 1
    depth1 = []
    d = 0
    for (s, en) in top:
        dd = b[o:s].count('{') - b[o:s].count('}')
        if dd == 1: depth1.append((s, en))
    while depth1 and re.match(r'\s*(const\s+)?(fn|impl)\b', b[depth1[-1][0]:depth1[-1][1]]): depth1.pop()
    if depth1 and not b[depth1[-1][0]:depth1[-1][1]].rstrip().endswith(';') :
        s = depth1[-1][0]
        return s
    return e

def last_call(e):
    """splits `X.name(args)` at the end of e"""
    e = e.strip()
    if not e.endswith(')'): return None
    b = strip_strings(e); d = 0; i = len(b) - 1
    while i >= 0:
        if b[i] in ')]}': d += 1
        elif b[i] in '([{':
            d -= 1
            if d == 0: break
        i -= 1
    m = re.search(r'^(.*?)\s*\.\s*(\w+)(?:::<[^>]*>)?\s*$', e[:i], re.S)
    return (m.group(1), m.group(2), e[i + 1:-1]) if m else None

ACH = re.compile(r'^(.*?)\s*\.\s*as_chunks(_mut)?::<([^<>]*)>\(\)\s*\.\s*0\s*(?:\.\s*(?:iter|iter_mut)\(\)\s*)?$', re.S)
def parse_iter(e):
    m = ACH.match(e.strip())
    if m and not re.search(r'as_chunks', m.group(1)): return ('achunks', 'iter_mut' if m.group(2) else 'iter', m.group(1), m.group(3))
    lc = last_call(e)
    if not lc: return None
    x, name, args = lc
    if name == 'zip' and re.match(r'\(\s*0\s*\.\.\s*[\w:]+\s*\)$', x.strip()):      # (0..N).zip(it): the index of `it`, up to N
        q = parse_iter(args); return ('ridx', re.match(r'\(\s*0\s*\.\.\s*([\w:]+)', x.strip()).group(1), q) if q else None
    if name == 'enumerate':
        n = parse_iter(x); return ('enum', n) if n else None
    if name == 'zip':
        n, q = parse_iter(x), parse_iter(args)
        return ('zip', n, q) if n and q else None
    if name in ('chunks', 'chunks_exact', 'chunks_mut', 'chunks_exact_mut', 'rchunks', 'rchunks_mut', 'rchunks_exact'): return ('chunks', name, x, args)
    if name == 'rev' and not args.strip():
        n = parse_iter(x); return ('chunks', 'rev_' + n[1], n[2], n[3]) if n and n[0] == 'chunks' and n[1].startswith('chunks_exact') else None
    if name in ('iter', 'iter_mut') and not args.strip(): return ('iter', name, x)
    return None

def split_pat(p):
    p = p.strip()
    if not (p.startswith('(') and p.endswith(')')): return None
    d = 0; parts = ['']
    for ch in p[1:-1]:
        if ch in '([': d += 1
        if ch in ')]': d -= 1
        if ch == ',' and d == 0: parts.append('')
        else: parts[-1] += ch
    return [q.strip() for q in parts if q.strip()]

def inline_chunks(body):
    """`let (p, _) = X.as_chunks::<K>();` with p used only to iterate: the uses become X.as_chunks::<K>().0"""
    for m in list(re.finditer(r'let\s*\((\w+),\s*_\)\s*=\s*([\w.]+?\.as_chunks(?:_mut)?::<[^<>]*>\(\));', body)):
        p, rest = m.group(1), body.replace(m.group(0), '')
        if len(re.findall(r'\b%s\b' % p, rest)) == len(re.findall(r'\b%s\s*\.\s*iter(?:_mut)?\(\)' % p, rest)):
            body = re.sub(r'\b%s\s*\.\s*iter(?:_mut)?\(\)' % p, lambda _: m.group(2) + '.0', rest)
    return body

def desugar_loops(body):
    """`for` over slice chunk/element iterators (with zip/enumerate) -> the same loop over an index range"""
    k = 0; body = inline_chunks(body)
    while True:
        done = True
        for s, br, e in loops(body):
            m = re.match(r'for\s+(.*?)\s+in\s+(.*)$', body[s:br].rstrip(), re.S)
            if not m or m.group(2).startswith('v_rng'): continue
            node = parse_iter(m.group(2))
            if not node: continue
            k += 1; pre, lets, counts, idx, lim = [], [], [], [None], []
            def leaves(pat, nd):
                if nd[0] == 'enum':
                    q = split_pat(pat)
                    if not q or len(q) != 2: raise Lost('pattern ' + pat)
                    if idx[0] is not None: raise Lost('two indices')
                    idx[0] = q[0]; leaves(q[1], nd[1])
                elif nd[0] == 'ridx':
                    q = split_pat(pat)
                    if not q or len(q) != 2 or idx[0] is not None: raise Lost('pattern ' + pat)
                    idx[0] = q[0]; leaves(q[1], nd[2]); lim.append(nd[1])
                elif nd[0] == 'zip':
                    q = split_pat(pat)
                    if not q or len(q) != 2: raise Lost('pattern ' + pat)
                    leaves(q[0], nd[1]); leaves(q[1], nd[2])
                else: counts.append((pat, nd))
            try: leaves(m.group(1), node)
            except Lost: continue
            iv = idx[0] if idx[0] and idx[0] != '_' else f'vi{k}'
            cs = []
            for j, (pat, nd) in enumerate(counts):
                ln = f'vlen{k}_{j}'; X = nd[2]
                pre.append(f'let {ln} = {X}.len();')
                if nd[0] == 'achunks':
                    N = nd[3]; mut = '_mut' if nd[1] == 'iter_mut' else ''
                    cs.append(f'v_div({ln}, {N})')
                    lets.append(f'proof {{ lemma_chunk({iv} as int, ({N}) as int, {ln} as int); }}')
                    if pat != '_': lets.append(f'let {pat} = {X}.v_chunk{mut}::<{{ {N} }}>({iv});')
                elif nd[0] == 'chunks':
                    N = nd[3]; ex = 'exact' in nd[1]; mut = 'mut ' if 'mut' in nd[1] else ''
                    cs.append(f'v_div({ln}, {N})' if ex else f'v_div_up({ln}, {N})')
                    lets.append(f'proof {{ lemma_chunk{"" if ex else "_up"}({iv} as int, ({N}) as int, {ln} as int); }}')
                    lo = f'{iv} * ({N})'
                    if nd[1].startswith('r'):      # from the back
                        if nd[1].startswith('rev_'):
                            lets[-1] = f'proof {{ lemma_chunk((v_div_spec({ln} as int, ({N}) as int) - 1 - {iv}) as int, ({N}) as int, {ln} as int); }}'
                            if pat != '_': lets.append(f'let {pat} = &{mut}{X}[(v_div({ln}, {N}) - 1 - {iv}) * ({N})..(v_div({ln}, {N}) - 1 - {iv}) * ({N}) + ({N})];')
                        elif pat != '_': lets.append(f'let {pat} = &{mut}{X}[' + (f'{ln} - {lo} - ({N})' if ex else f'(if {ln} - {lo} < ({N}) {{ 0 }} else {{ {ln} - {lo} - ({N}) }})') + f'..{ln} - {lo}];')
                        continue
                    hi = f'{lo} + ({N})' if ex else f'(if {ln} - {lo} < ({N}) {{ {ln} }} else {{ {lo} + ({N}) }})'
                    if pat != '_': lets.append(f'let {pat} = &{mut}{X}[{lo}..{hi}];')
                else:
                    cs.append(ln)
                    if pat.startswith('&'): lets.append(f'let {pat[1:].strip()} = {X}[{iv}];')
                    elif pat != '_': lets.append(f'let {pat} = &{"mut " if nd[1] == "iter_mut" else ""}{X}[{iv}];')
            cs += lim; cnt = cs[0]
            for c in cs[1:]: cnt = f'v_min({cnt}, {c})'
            pre.append(f'let vn{k}: usize = {cnt};')
            body = body[:s] + ' '.join(pre) + f' for {iv} in 0..vn{k} ' + '{ ' + ' '.join(lets) + body[br + 1:e] + body[e:]
            done = False; break
        if done: return body

def gen_fn(f, header, name, opts, info):
    t, x = find_fn(f, header, name)
    if x[3] is None: sig, body = t[x[2]:x[4] - 1], '{}'
    else:
        sig, body = t[x[2]:x[3]], t[x[3]:x[4]]
        for n, a, b, e in reversed(nested(t, x[3], x[4])):      # inner functions the unit extracts on their own (`outer/inner`)
            if (f, header, f'{name}/{n}') in info.get('inner', ()): body = body[:a - x[3]] + body[e - x[3]:]
    nobody = x[3] is None or any(o == 'nobody' for o, _, _ in opts)
    sig, body = clean(sig), clean(body)
    sig = re.sub(r'([(,]\s*)_\s*:', r'\1_a:', sig)
    lost = []
    if info.get('stub') and not nobody:      # contract only: the body is verified by another unit
        opts = [o for o in opts if o[0] in ('ret', 'spec', 'vis') or o[0] == 'sub' and o[1].startswith('sig ')] + [['attr', '#[verifier::external_body] /*proved elsewhere*/', '']]
        sig = re.sub(r'\(\s*mut\s+self\b', '(self', sig); sig = re.sub(r'([(,]\s*)mut\s+(?=\w+\s*:)', r'\1', sig)
        body = '{ unimplemented!() }'; info.setdefault('stubs', []).append(f'{f} :: {name}')
    if re.search(r'\(\s*mut\s+self\b', sig):      # `mut self` is not accepted: rebind it
        sig = re.sub(r'\(\s*mut\s+self\b', '(self', sig)
        body = '{ let mut this = self;' + re.sub(r'\bself\b', 'this', body)[1:]
    for o, arg, txt in opts:
        if o == 'sub':
            re_, rep = arg.split(' => ', 1) if ' => ' in arg else (arg[:-3] if arg.endswith(' =>') else arg, '')
            rep = rep + ('\n' + txt if txt.strip() else '')
            n = 0
            if re_.startswith('sig '):
                sig, n = re.subn(re_[4:], rep, sig)
            else: body, n = re.subn(re_, rep, body, flags=re.S)
            if not n and '/*proved elsewhere*/' not in str(opts): lost.append('sub ' + re_)
            info['subs'].append(f'{name}: {re_} => {rep}')
    body = desugar_loops(body)
    edits = []   # (pos, text, order)
    lp = loops(body)
    for o, arg, txt in opts:
        try:
            if o in ('loop', 'lbegin', 'lend'):
                a = arg.split(); k = int(a[0]) - 1
                if k >= len(lp): raise Lost(f'loop {k+1}')
                s, br, e = lp[k]
                if o == 'loop':
                    edits.append((br, '\n' + txt + '\n', 0))
                    if len(a) > 1:
                        m = re.search(r'\bin\b', body[s:br])
                        if not m: raise Lost(f'loop {k+1} in')
                        edits.append((s + m.end(), f' {a[1]}:', 0))
                elif o == 'lbegin': edits.append((br + 1, '\n' + txt + '\n', 0))
                else: edits.append((e - 1, '\n' + txt + '\n', 0))
            elif o == 'begin': edits.append((1, '\n' + txt + '\n', 1))
            elif o == 'end':      # (unit functions only: a value-less tail expression gets its `;`)
                q = len(body.rstrip()) - 1
                edits.append((q, ('' if body[:q].rstrip()[-1] in ';}{' else ';') + '\n' + txt + '\n', 1))
            elif o == 'tail': edits.append((tail_pos(body), '\n' + txt + '\n', 1))
            elif o in ('before', 'after'):
                kth = 0
                mm = re.match(r'#(\d+) (.*)$', arg, re.S)
                if mm: kth, arg = int(mm.group(1)) - 1, mm.group(2)
                ss = [s for s in stmts(body) if re.match(r'\s*(?:' + arg + ')', body[s[0]:s[1]], re.S)]
                if len(ss) <= kth: raise Lost(f'{o} {arg}')
                ss.sort()
                edits.append((ss[kth][0] if o == 'before' else ss[kth][1], '\n' + txt + '\n', 2))
        except Lost as e: lost.append(str(e))
    for pos, txt, _ in sorted(edits, key=lambda z: (-z[0], -z[2])):
        body = body[:pos] + txt + body[pos:]
    sig = re.sub(r'\bconst\s+(?=(unsafe\s+)?fn\b)', '', sig)
    vis = not any(o == 'vis' for o, _, _ in opts)
    sig = fix_vis(sig.strip(), vis)
    for o, arg, txt in opts:
        if o == 'ret':
            # last -> at depth 0 after the parameter list
            i = sig.index('fn '); p = sig.index('(', i)
            # skip generics before the list
            m = re.match(r'fn\s+\w+\s*', sig[i:]); q = i + m.end()
            if sig[q] == '<':
                d = 0
                while True:
                    if sig[q] == '<': d += 1
                    elif sig[q] == '>' and sig[q - 1] != '-':
                        d -= 1
                        if d == 0: q += 1; break
                    q += 1
                p = sig.index('(', q)
            e = close(sig, p); rest = sig[e:]
            m = re.match(r'\s*->\s*(.*?)\s*(\bwhere\b.*)?$', rest, re.S)
            if not m: lost.append('ret')
            else: sig = sig[:e] + f' -> ({arg}: {m.group(1)})' + (' ' + m.group(2) if m.group(2) else '')
    if lost: info['lost'] += [f'{name}: {l}' for l in lost]
    spec = '\n'.join(txt for o, _, txt in opts if o == 'spec')
    attrs = ''.join(arg + '\n' for o, arg, _ in opts if o == 'attr')
    if lp and 'loop_isolation' not in attrs: attrs += '#[verifier::loop_isolation(false)]\n'
    if nobody: body = ';'
    return attrs + sig + '\n' + (spec + '\n' if spec else '') + body

OPT = ('ret', 'spec', 'loop', 'lbegin', 'lend', 'begin', 'end', 'tail', 'before', 'after', 'sub', 'attr', 'vis', 'nobody')
def expand(path, info, out, params=()):
    """appends lines to out; records fn line ranges in info['fns']"""
    t0 = open(path).read()
    for kv in params:
        k, v = kv.split('=', 1); t0 = t0.replace('@' + k + '@', v)
    info.setdefault('inner', set()).update(tuple(a.strip().split(' :: ')) for a in re.findall(r'//@fn (.*/\w+)\s*$', t0, re.M))
    ls = t0.split('\n'); i = 0
    while i < len(ls):
        l = ls[i]
        m = re.match(r'\s*//@(fn|item|use|stub|constfn|const)\s+(.*)$', l)
        if not m: out.append(l); i += 1; continue
        kind, arg = m.group(1), m.group(2).strip()
        if kind == 'stub':
            a = arg.split(); old = info.get('stub'); info['stub'] = True; expand(os.path.join(V, 'verus', a[0]), info, out, a[1:]); info['stub'] = old; i += 1; continue
        if kind == 'use':
            a = arg.split(); expand(os.path.join(V, 'verus', a[0]), info, out, a[1:]); i += 1; continue
        opts = []; i += 1
        while i < len(ls):
            mm = re.match(r'\s*//@(end)\b', ls[i])
            if mm: i += 1; break
            mm = re.match(r'\s*//@ (\w+) ?(.*)$', ls[i])
            if mm and mm.group(1) in OPT: opts.append([mm.group(1), mm.group(2).rstrip(), '']); i += 1; continue
            if not opts:
                if kind != 'fn': break
                if not ls[i].strip(): i += 1; continue
                break
            opts[-1][2] += ls[i] + '\n'; i += 1
        parts = [p.strip() for p in arg.split(' :: ')]
        if kind == 'fn':
            txt = gen_fn(parts[0], parts[1], parts[2], opts, info)
            s = len(out) + 1; out += txt.split('\n')
            if txt.rstrip().endswith('}') and not info.get('stub'): info['fns'].append((s, len(out), f'{parts[0]} :: {parts[1]} :: {parts[2]}', parts[2].split('#')[0]))
        elif kind == 'item':
            k, n = parts[1].split(None, 1)
            txt = clean(find_item(parts[0], k, n))
            for o, a, _ in opts:
                if o == 'sub':
                    re_, rep = a.split(' => ', 1) if ' => ' in a else (a[:-3] if a.endswith(' =>') else a, ''); txt, c = re.subn(re_, rep, txt, flags=re.S)
                    if not c: info['lost'].append(f'{n}: sub {re_}')
                    info['subs'].append(f'{n}: {re_} => {rep}')
            txt = fix_vis(txt)
            if k == 'struct' and not any(o == 'vis' for o, _, _ in opts):
                txt = re.sub(r'(?m)([{,(]\s*)(?:pub\s*(?:\([^)]*\))?\s+)?(\w+\s*:(?!:))', r'\1pub \2', txt) if '{' in txt else re.sub(r'\(\s*(?:pub\s*(?:\([^)]*\))?\s+)?', '(pub ', txt, count=1)
                # const generics in the header must not get `pub`
                txt = re.sub(r'<(const )?pub ', r'<\1', txt)
            for o, a, _ in opts:
                if o == 'attr': out += [a]
            out += txt.split('\n')
        elif kind == 'constfn':      # an associated constant or static as a function returning it
            k, _, n = parts[2].rpartition(' '); k = k or 'const'
            txt = fix_vis(clean(find_item(parts[0], k, n, None if parts[1] == '-' else parts[1])), False)
            m = re.match(r'\s*(?:const|static)\s+\w+\s*:\s*(.*?)\s*=\s*(.*);\s*$', txt, re.S)
            if not m: raise Lost(f'{n}: not a constant')
            ty, ex = m.group(1), m.group(2)
            for o, a, _ in opts:
                if o == 'sub':
                    re_, rep = a.split(' => ', 1)
                    if re_.startswith('sig '): re_ = re_[4:]; ty, c = re.subn(re_, rep, ty, flags=re.S)
                    else: ex, c = re.subn(re_, rep, ex, flags=re.S)
                    if not c: info['lost'].append(f'{n}: sub {re_}')
                    info['subs'].append(f'{n}: {re_} => {rep}')
            g = lambda k: '\n'.join(t for o, _, t in opts if o == k)
            st = len(out) + 1
            out += (('' if any(o == 'vis' for o, _, _ in opts) else 'pub ') + f'fn v_{n}() -> (r: {ty})\n{g("spec")}{{ {g("begin")} {ex} }}').split('\n')
            info['fns'].append((st, len(out), f'{parts[0]} :: {parts[1]} :: {n}', 'v_' + n))
        else:
            k, n = 'const', parts[2]
            txt = clean(find_item(parts[0], 'const', n, parts[1]))
            for o, a, _ in opts:
                if o == 'sub':
                    re_, rep = a.split(' => ', 1) if ' => ' in a else (a[:-3] if a.endswith(' =>') else a, ''); txt, c = re.subn(re_, rep, txt, flags=re.S)
                    if not c: info['lost'].append(f'{n}: sub {re_}')
            out += fix_vis(txt).split('\n')

FAILMSG = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'assertion not satisfied', 'possible arithmetic underflow/overflow',
           'possible division by zero', 'decreases not satisfied', 'unable to prove', 'possible bit shift', 'may be out of', 'loop invariant', 'cannot show', 'not satisfied', 'failed')

def trusted_scan(text):
    r = []
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*((?:[^\[\]]|\[[^\]]*\])*?)\s*\]\s*\(|external_body\]?(?! /\*proved elsewhere)[^;{]*?\bfn\s+(\w+)|\b(admit)\(\)|\b(assume)\(|axiom fn\s+(\w+)|uninterp spec fn\s+(\w+)', text):
        r.append(next(x for x in m.groups() if x))
    return sorted(set(r))

def verify(path, rlimit, timeout, extra=()):
    t = time.time()
    rc, o = run(['verus', path, '--output-json', '--time-expanded', '--rlimit', str(rlimit), '--multiple-errors', '3', '--num-threads', '4', '--error-format=json', '--triggers-mode', 'silent', *extra],
                cwd=WORK, env={'RUSTUP_TOOLCHAIN': '1.98.1-x86_64-unknown-linux-gnu'} if False else {}, timeout=timeout)
    errs, js = [], None
    buf = []
    for l in o.split('\n'):
        if l.startswith('{"$message_type"') or l.startswith('{"message"'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error': errs.append(d)
        else: buf.append(l)
    m = re.search(r'(?s)\{.*\}', '\n'.join(buf))
    if m:
        try: js = json.loads(m.group(0))
        except ValueError: pass
    return rc, errs, js, time.time() - t, o

def build(unit, info):
    out = ['#![allow(warnings)]']
    expand(os.path.join(V, 'verus', unit + '.rs'), info, out)
    return out

def lost_in(fn, lost):
    """a failure in a function whose own hints lost their anchors (or in a lemma, when anything was lost) is not evidence"""
    short = re.split(r'::|\s|/', (fn or 'lemma').strip())[-1]
    return bool(lost) and (short == 'lemma' or any(re.search(r'\b' + re.escape(short) + r'\b', l.split(':')[0] + ' ' + l) for l in lost))

def run_one(v, OBL, FAILED, NOTES):
    unit = v['unit']
    info = {'subs': [], 'lost': [], 'fns': []}
    name = f'verus:{unit}'
    base = {'name': name, 'backend': 'verus/z3', 'checks': 1, 'time': 0.0, 'status': 'undecided', 'detail': ''}
    try: out = build(unit, info)
    except (Lost, ValueError, OSError) as e:
        base['detail'] = f'extraction lost its source: {e}'; OBL.append(base); return
    d = f'{WORK}/verus'; os.makedirs(d, exist_ok=True)
    p = f'{d}/{unit}.rs'; open(p, 'w').write('\n'.join(out))
    rl = v.get('rlimit', 60) * (4 if TIER == 'thorough' else 1)
    rc, errs, js, dt, o = verify(p, rl, max(60, min(v.get('timeout', 400), left() - 40)))
    open(f'{d}/{unit}.log', 'w').write(o)
    vr = (js or {}).get('verification-results', {})
    nver, nerr = vr.get('verified', 0), vr.get('errors', 0)
    real, und = [], []
    for e in errs:
        msg = e.get('message', '')
        if msg.startswith('aborting due to'): continue
        line = next((s['line_start'] for s in e.get('spans', []) if s.get('is_primary')), 0)
        lines = [s['line_start'] for s in e.get('spans', [])]
        fn = next((n for a, b, n, _ in info['fns'] for L in [line] + lines if a <= L <= b), None)
        text = out[line - 1].strip() if 0 < line <= len(out) else ''
        kind = 'rlimit' if 'rlimit' in msg.lower() or 'resource limit' in msg.lower() else ('fail' if not e.get('code') and any(k in msg for k in FAILMSG) and js is not None and (nver or nerr) else 'other')
        (real if kind == 'fail' else und).append({'fn': fn or 'lemma', 'message': msg, 'line': line, 'text': text, 'rendered': e.get('rendered', '')[:1500]})
    if vr.get('success') and not errs and nver:
        base.update(status='discharged', checks=nver, time=dt)
        # vacuity: every extracted function's entry must be reachable under its contract
        if v.get('vacuity', True):
            info2 = {'subs': [], 'lost': [], 'fns': []}
            out2 = list(out); want = 0
            for a, b, n, short in info['fns']:
                seg = '\n'.join(out2[a - 1:b])
                if re.search(r'(?m)^\s*requires\b', seg):
                    want += 1
            if want:
                out2, exp = vacuity_text(out, info)
                p2 = f'{d}/{unit}_vac.rs'; open(p2, 'w').write('\n'.join(out2))
                rc2, errs2, js2, dt2, o2 = verify(p2, 20, max(60, min(200, left() - 40)))
                hit = set()
                for e in errs2:
                    for s in e.get('spans', []):
                        if s['line_start'] in exp: hit.add(s['line_start'])
                missing = [exp[l] for l in exp if l not in hit]
                base['time'] = dt + dt2
                base['vacuity'] = f'{len(hit)}/{len(exp)} entry assertions refuted'
                if missing: base.update(status='undecided', detail=f'vacuous or unanswered entry: {missing[:5]}')
    elif real and not [r for r in real if lost_in(r['fn'], info['lost'])]:
        base.update(status='failed', checks=max(1, nver + nerr), time=dt, detail='; '.join(f"{r['fn']}: {r['message']} [{r['text'][:80]}]" for r in real[:4]))
        OBL.append(base)
        rec = [r for r in real]
        FAILED.append((base, {'kind': 'verus', 'text': json.dumps(rec[:8], indent=1), 'failed': [(r['fn'], r['message']) for r in rec]}))
        return
    else:
        base.update(time=dt, checks=max(1, nver), detail=('lost anchors ' + str(info['lost'][:4]) + ' ' if info['lost'] else '') + ('; '.join(f"{r['fn']}: {r['message'][:160]} [{r['text'][:60]}]" for r in (und + real)[:4]) or f'no result rc={rc} {o[-300:]}'))
        OBL.append(base); return
    base['functions'] = [n for _, _, n, _ in info['fns']]
    base['subs'] = info['subs']; base['callee_contracts'] = sorted(set(info.get('stubs', []))); base['trusted'] = trusted_scan('\n'.join(out))
    if info['lost']: NOTES.append(f'{unit}: lost hints {info["lost"][:5]} (proof still accepted)')
    OBL.append(base)

def vacuity_text(out, info):
    """puts assert(false) at the start of each extracted function's body"""
    o = list(out); exp = {}
    for a, b, n, short in info['fns']:
        seg = '\n'.join(o[a - 1:b]); 
        # body brace: the last top-level '{' whose close is the end of the segment
        s = strip_strings(seg); pos = None
        for i, ch in enumerate(s):
            if ch == '{':
                try: e = close(s, i)
                except Lost: continue
                if not s[e:].strip(): pos = i; break
        if pos is None: continue
        ln = a + s[:pos].count('\n')
        h = re.match(r'(?:\s*hide\([\w:]+\);)*', seg[pos + 1:]).end(); ln += seg[pos + 1:pos + 1 + h].count('\n')
        seg2 = seg[:pos + 1 + h] + ' assert(false); ' + seg[pos + 1 + h:]
        new = seg2.split('\n')
        o[a - 1:b] = new
        exp[ln] = n
    return o, exp

if __name__ == '__main__':
    # verus_extract.py UNIT: expand and verify one unit, printing diagnostics (development aid)
    import sys
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('GRAVIOLA_REPO', '/repo')
    unit = sys.argv[1]; info = {'subs': [], 'lost': [], 'fns': []}
    VT = os.environ.get('VT', '/tmp/vt')
    os.makedirs(VT, exist_ok=True)
    out = build(unit, info); p = f'{VT}/{unit}.rs'; open(p, 'w').write('\n'.join(out))
    print('lost:', info['lost'])
    t = time.time()
    r = subprocess.run(['verus', p, '--rlimit', '60', '--num-threads', '6', '--triggers-mode', 'silent', *sys.argv[2:]], cwd=VT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    txt = r.stdout.decode(errors='replace'); print(txt[:7000]); print(f'{time.time()-t:.1f}s')
