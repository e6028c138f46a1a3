"""Helpers shared by the harnesses."""
from md_toc import api
from props import alpha
from props.ref import ref_toc, Unspecified

# numbers of repetitions: small ones, and large ones past any plausible size limit
SOME = (1, 5, 17)
MANY = (1, 9, 40, 300)
HUGE = (1, 1100)


def alph(a):
    return getattr(alpha, a) if isinstance(a, str) and hasattr(alpha, a) else tuple(a)


def build(ctx, parts, name='s'):
    """string made of literal parts, of holes (n, alphabet), of repeated holes (n, alphabet, numbers of repetitions) and of
    repeated literals (text, numbers of repetitions)"""
    out = []
    k = 0
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif len(p) == 3:
            # one symbolic string, repeated; the number of repetitions is an input too
            out.append(ctx.str('%s%d' % (name, k), p[0], alph(p[1])) * ctx.pick('%s%d.n' % (name, k), p[2]))
            k += 1
        elif isinstance(p[0], str):
            out.append(p[0] * ctx.pick('%s%d.n' % (name, k), p[1]))
            k += 1
        else:
            out.append(ctx.str('%s%d' % (name, k), p[0], alph(p[1])))
            k += 1
    return ''.join(out)


def assume_not_in(ctx, s, *subs):
    for x in subs:
        if len(s) >= len(x):
            ctx.assume(ctx.neg(x in s))


def job(fn, **params):
    j = dict(fn=fn, params=params)
    pre = params.get('pre', [])
    if len(pre) > 12:
        j['name'] = '%s(pre=%d levels %r...,%s)' % (fn, len(pre), pre[:6], ','.join('%s=%r' % kv for kv in params.items() if kv[0] != 'pre'))
    return j


def short1(p):
    if isinstance(p, tuple) and (len(p) == 3 or isinstance(p[0], str)):
        reps = '/'.join(map(str, p[-1]))
        return '%s*{%s}' % (repr(p[0]) if isinstance(p[0], str) else '(%s)' % short1(p[:2]), reps)
    return ((repr(p) if len(p) < 24 else '%r*%d' % (p[0], len(p))) if isinstance(p, str) else '%d*%s' % (p[0], p[1] if len(p[1]) < 12 else '%d chars' % len(p[1])))


def short(parts):
    return '+'.join(short1(p) for p in parts)


def tjob(fn, parts, **params):
    """template job with a readable name"""
    extra = ','.join('%s=%r' % kv for kv in params.items())
    return dict(fn=fn, params=dict(parts=parts, **params), name='%s(%s%s)' % (fn, short(parts), ',' + extra if extra else ''))


def rep(line, times):
    """a line of a template document that is repeated"""
    return dict(line=line, times=times)


def build_lines(ctx, tpl, name='L'):
    """a document: one template of parts per line"""
    out = []
    for k in range(len(tpl)):
        parts = tpl[k]
        reps = 1
        if isinstance(parts, dict):
            # a repeated line; the number of repetitions is an input
            parts, reps = parts['line'], ctx.pick('%s%d.reps' % (name, k), parts['times'])
        if isinstance(parts, str):
            parts = [parts]
        if reps != 1:
            out += [build(ctx, parts, '%s%d_' % (name, k))] * reps
            continue
        out.append(build(ctx, parts, '%s%d_' % (name, k)))
    return out


def api_options(o):
    """keyword arguments of build_toc for the options of ref_toc"""
    names = dict(parser='parser', ordered='ordered', constant='constant_ordered_list', marker='list_marker',
                 no_links='no_links', no_indentation='no_indentation', no_coherence='no_list_coherence',
                 keep='keep_header_levels', newline='newline_string')
    return {names[k]: v for k, v in o.items()}


def toc_of(ctx, lines, opts, via='file', end='\n', extra=None):
    """build the TOC of these lines with the code under test"""
    text = end.join(lines) + end
    return toc_of_text(ctx, text, opts, via, extra)


def toc_of_text(ctx, text, opts, via='file', extra=None):
    k = api_options(opts)
    if extra:
        k.update(extra)
    if via == 'file':
        ctx.write('doc.md', text)
        return ctx.call(api.build_toc, ctx.path('doc.md'), **k)
    ctx.set_stdin(text)
    return ctx.call(api.build_toc, '-', **k)


def expect_toc(ctx, r, lines, opts, msg):
    """r must be what ref_toc says"""
    try:
        e = ref_toc(lines, **opts)
    except Unspecified:
        return
    expect_result(ctx, r, e, msg)


def expect_result(ctx, r, e, msg):
    if e[0] == 'exc':
        ctx.check(r.kind == 'exc' and r.value in e[1], msg + ': refused with the documented error')
    else:
        ctx.check(r.ok, msg + ': accepted')
        ctx.check(ctx.same(r.value, e[1]), msg)


def doc(ctx, tpl, msg, via='file', end='\n', **opts):
    """template document against the reference TOC"""
    lines = build_lines(ctx, tpl)
    for k in list(opts):
        if isinstance(opts[k], (list, tuple)):
            opts[k] = ctx.pick(k, opts[k])
    if isinstance(via, (list, tuple)):
        via = ctx.pick('via', via)
    r = toc_of(ctx, lines, opts, via, end)
    expect_toc(ctx, r, lines, opts, msg)


def line_name(x):
    if isinstance(x, dict):
        return '%s x{%s}' % (line_name(x['line']), '/'.join(map(str, x['times'])))
    return short([x] if isinstance(x, str) else x)


def djob(tpl, fn='docs', **params):
    name = ' / '.join(line_name(x) for x in tpl)
    extra = ','.join('%s=%r' % kv for kv in params.items())
    return dict(fn=fn, params=dict(tpl=tpl, **params), name='%s(%s%s)' % (fn, name, ',' + extra if extra else ''))


def levels_doc(ctx, pre, k, top, texts=('x',)):
    """headings: `pre` concrete levels, then k symbolic levels 1..top"""
    lv = list(pre)
    for i in range(k):
        lv.append(ctx.pick('level%d' % i, range(1, top + 1)))
    return ['#' * n + ' ' + texts[i % len(texts)] for i, n in enumerate(lv)], lv


def pick_opts(ctx, opts):
    return {k: (ctx.pick(k, v) if isinstance(v, (list, tuple)) else v) for k, v in opts.items()}


def earlier_call(ctx, lines, opts, end='\n'):
    """some other call before the one that is checked: it must leave no trace"""
    how = ctx.pick('earlier', ['parser', 'links', 'levels', 'list', 'other text', 'incoherent', 'undecodable', 'skip', 'stdin', 'deep', 'same'])
    o = dict(opts)
    if how == 'parser':
        o['parser'] = ctx.pick('earlier.parser', ['github', 'cmark', 'gitlab', 'redcarpet'])
    elif how == 'links':
        o['no_links'] = not opts.get('no_links', False)
    elif how == 'levels':
        o['keep'] = 1 if opts.get('keep', 3) != 1 else 6
    elif how == 'list':
        o['ordered'] = not opts.get('ordered', False)
        o['constant'] = ctx.flag('earlier.constant')
        o['marker'] = ')' if o['ordered'] and o.get('parser') != 'redcarpet' else '-'
    elif how == 'other text':
        lines = ['# ' + l for l in lines] + ['```', '# zz', '# zz', '## zz']
    elif how == 'incoherent':
        lines = ['## z', '# z'] + lines
        o.pop('no_indentation', None)
        o.pop('no_coherence', None)
    elif how == 'deep':
        lines = ['#' * i + ' z' for i in range(1, 7)]
        o['keep'] = 6
    elif how == 'undecodable':
        lines = lines + ['# z', '\udcff', '# z']
    toc_of(ctx, lines, o, 'stdin' if how == 'stdin' else 'file', end, dict(skip_lines=2) if how == 'skip' else None)


def doc_after(ctx, tpl, msg, end='\n', **opts):
    """template document against the reference TOC, after another call"""
    lines = build_lines(ctx, tpl)
    opts = pick_opts(ctx, opts)
    first = toc_of(ctx, lines, opts, 'file', end) if ctx.flag('first') else None
    earlier_call(ctx, lines, opts, end)
    r = toc_of(ctx, lines, opts, 'file', end)
    if first is not None:
        ctx.check(ctx.same(r, first), msg + ': the same again, whatever was called between')
    expect_toc(ctx, r, lines, opts, msg + ', whatever was called before')
