"""Reference model of INCAR content: documents are built from assignments, so the expected content is known by construction."""
import json
import os

with open(os.path.join(os.path.dirname(__file__), 'incar_tags.json')) as _fh:
    TAGS = json.load(_fh)

RAW = ('system', 'magmom', 'm_constr')

# (text, value) pairs; the value is what the text means, written down by hand
VALUES = [
    ('500', 500), ('0', 0), ('-7', -7), ('+3', 3), ('0012', 12),
    ('0.2', 0.2), ('-1.5', -1.5), ('2.', 2.0), ('.5', 0.5), ('1E-5', 1e-5), ('1e5', 1e5), ('1.0e-08', 1e-8), ('-2.5E+02', -250.0), ('1E3', 1000.0),
    ('.TRUE.', True), ('.FALSE.', False), ('.True.', True), ('.False.', False), ('.true.', True), ('.false.', False),
    ('.t.', True), ('.f.', False), ('.T.', True), ('.F.', False),
    ('Fast', 'Fast'), ('Normal', 'Normal'), ('F', 'F'), ('PS', 'PS'), ('10*1.0', '10*1.0'), ('a_b-c', 'a_b-c'), ('e', 'e'), ('NaN', 'NaN'), ('inf', 'inf'),
    ('A.t', 'A.t'), ('1:3', '1:3'), ('--', '--'),
    ('1 2 3', [1, 2, 3]), ('0 0', [0, 0]), ('-1   4', [-1, 4]), ('1.0 2.0', [1.0, 2.0]), ('0.5 -0.25 1e-3', [0.5, -0.25, 1e-3]),
    ('2*0.5 3*1', ['2*0.5', '3*1']), ('Fe O', ['Fe', 'O']), ('.TRUE. .FALSE.', [True, False]), ('.F.  .T. .F.', [False, True, False]),
    ('1\t2', [1, 2]),
    # extreme figures: every digit counts
    ('0.30000000000000004', 0.30000000000000004), ('123456.789012345678', 123456.789012345678), ('-1.2345678901234567E-12', -1.2345678901234567e-12), ('1e-300', 1e-300),
    ('12345678901234567890', 12345678901234567890), ('9007199254740993', 9007199254740993), ('-0', 0), ('1E+15', 1e15), ('100000', 100000), ('1e-4', 1e-4), ('+0.5', 0.5), ('-.5', -0.5),
    ('00.50', 0.5), ('1.', 1.0), ('1.e3', 1000.0), ('0.0', 0.0), ('0e0', 0.0), ('1.0', 1.0),
    # long and repetitive lists
    ('0 0 0 0 0 0', [0] * 6), ('1 1 1 2 2 2 2 3', [1, 1, 1, 2, 2, 2, 2, 3]), ('2.0 2.0 2.0 2.0 2.0', [2.0] * 5), ('3 2 1', [3, 2, 1]), ('1 10 100 -1', [1, 10, 100, -1]),
    (' '.join('%d.5' % i for i in range(12)), [i + 0.5 for i in range(12)]), (' '.join(str(7 * i % 50) for i in range(60)), [7 * i % 50 for i in range(60)]),
    ('.T. .T. .T. .T. .T.', [True] * 5), ('.FALSE. .FALSE.', [False] * 2), ('a a a a a', ['a'] * 5), ('Fe Fe O', ['Fe', 'Fe', 'O']), ('2*0 2*0', ['2*0', '2*0']),
    ('0.1 0.10 0.1', [0.1, 0.1, 0.1]), ('1. 2.5 1E-3', [1.0, 2.5, 1e-3]),
    # texts that resemble something else
    ('run.txt', 'run.txt'), ('1.2.3', '1.2.3'), ('/a/b.f90', '/a/b.f90'), ('a.trial', 'a.trial'), ('T', 'T'), ('true', 'true'), ('FALSE', 'FALSE'), ('1a', '1a'), ('e5', 'e5'), ('1e', '1e'),
    ('1-2', '1-2'), ('1,2', '1,2'), ('0x10', '0x10'), ('1d-3', '1d-3'), ('$HOME', '$HOME'), ('!x', '!x'), ("'q'", "'q'"), ('"q"', '"q"'), ('%s', '%s'), ('{x}', '{x}'), ('\\n', '\\n'),
    ('.', '.'), ('+', '+'), ('..T', '..T'), ('VeryFastAndLongText', 'VeryFastAndLongText'), ('no no', ['no', 'no']),
]
RAW_VALUES = [
    ('my system', 'my system'), ('Fe2 O3  run 1', 'Fe2 O3  run 1'), ('2*1.0 3*-1', '2*1.0 3*-1'), ('1.0 -1', '1.0 -1'), ('500', '500'), ('.TRUE.', '.TRUE.'),
    ('1 1 1 1 1 1', '1 1 1 1 1 1'), ('1 .TRUE. a 0.5', '1 .TRUE. a 0.5'), ('a\tb', 'a\tb'), ('Relax: Si (2x2)', 'Relax: Si (2x2)'), ('A', 'A'), ('UPPER lower', 'UPPER lower'), ('1.0', '1.0'),
    ('10*0.123456789012345678 2*-1', '10*0.123456789012345678 2*-1'), ('system', 'system'),
]
PLAIN_TAGS = ['encut', 'ismear', 'lreal', 'ldauu', 'algo', 'sigma', 'm_constr', 'magmom', 'system']


def style_tag(tag, style):
    if style == 'upper':
        return tag.upper()
    if style == 'lower':
        return tag
    if style == 'mixed':
        return ''.join(c.upper() if i % 2 else c for i, c in enumerate(tag))
    raise ValueError(style)


def spell(value):
    """How the written file spells a value (C03)."""
    if isinstance(value, bool):
        return '.TRUE.' if value else '.FALSE.'
    if isinstance(value, list):
        return ' '.join(spell(v) for v in value)
    return str(value)


def text_of(entries, comments):
    """Canonical written text of {tag: (value, comment)}."""
    out = []
    for tag in sorted(entries):
        value, comment = entries[tag]
        tail = ' # ' + comment if (comments and comment is not None) else ''
        out.append('%s = %s%s\n' % (tag.upper(), spell(value), tail))
    return ''.join(out)


def gen_assignment(ctx, pos, values=VALUES, tags=PLAIN_TAGS):
    """One 'TAG = value' piece: returns (text, tag, value)."""
    default = ['encut', 'sigma', 'algo', 'ismear', 'lreal'][pos % 5]
    tag = ctx.choose('tag', [default] + [t for t in tags if t != default])
    style = ctx.choose('case', ['upper', 'lower', 'mixed'])
    if tag in RAW:
        text, value = ctx.choose('rawvalue', RAW_VALUES)
    else:
        text, value = ctx.choose('value', [values[pos % len(values)]] + [v for i, v in enumerate(values) if i != pos % len(values)])
    eq = ctx.choose('eq', [' = ', '=', '  =', '=\t', '   =    '])
    return style_tag(tag, style) + eq + text, tag, value


def gen_document(ctx, maxlines=3):
    """A document and its meaning: (text, {tag: (value, comment)})."""
    entries = {}
    lines = []
    nlines = ctx.free('nlines', list(range(1, maxlines + 1)))
    pos = 0
    for _ in range(nlines):
        kind = ctx.choose('line', ['one', 'pair', 'blank', 'spaces', 'comment', 'icomment', 'triple', 'hash'])
        if kind == 'blank':
            lines.append('')
            continue
        if kind == 'spaces':
            lines.append('   \t')
            continue
        if kind == 'hash':
            lines.append('#')
            continue
        if kind in ('comment', 'icomment'):
            body = ctx.choose('ctext', ['# a note', '#ENCUT = 300', '# a = b = c; d', '## x # y'])
            lines.append(('   ' if kind == 'icomment' else '') + body)
            continue
        count = {'one': 1, 'pair': 2, 'triple': 3}[kind]
        pieces = []
        met = []
        for _i in range(count):
            text, tag, value = gen_assignment(ctx, pos)
            pos += 1
            pieces.append(text)
            met.append((tag, value))
        sep = ';' if count == 1 else ctx.choose('sep', ['; ', ';', ' ;  ', ';;', ' ; ; '])
        line = sep.join(pieces)
        line += ctx.choose('semi', ['', ';', ' ; ', ';;'])
        tail = ctx.choose('tail', ['', ' # note', '#note', '   ', ' # x = 1 ; y', ' #', '  # a # b', ' # \u00e9',
                                     '#a#b', '#a #b', '# x=1', '#x;ENCUT=9', '\t# tab', ' #  two  blanks ', '##', ' # ! % {} \\'])
        line += tail
        comment = tail.split('#', 1)[1].strip() if '#' in tail else None
        line = ctx.choose('indent', ['', '  ', '\t']) + line
        for tag, value in met:
            entries[tag] = (value, comment)
        lines.append(line)
    ending = ctx.choose('eol', ['\n', 'nofinal', '\r\n'])
    if ending == 'nofinal':
        return '\n'.join(lines), entries
    return ''.join(l + ending for l in lines), entries
