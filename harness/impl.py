"""Calls of the implementation and projection of its results."""

import contextlib
import io
import os
import signal
import sys
import zlib

# Another tree may be given when the checks themselves are being tried out.
REPO = os.environ.get('MDTOC_TREE', '/repo')
sys.path.insert(0, REPO)

import md_toc  # noqa: E402
from md_toc import api, exceptions  # noqa: E402

FAMILY = {'github': 'gfm', 'commonmarker': 'gfm', 'cmark': 'cm', 'goldmark': 'cm',
          'gitlab': 'gl', 'redcarpet': 'rc'}
PARSERS = {'gfm': ['github', 'commonmarker'], 'cm': ['cmark', 'goldmark'],
           'gl': ['gitlab'], 'rc': ['redcarpet']}
ALL_PARSERS = list(FAMILY)
DOCUMENTED = {
    'GithubEmptyLinkLabel': 'empty',
    'GithubOverflowCharsLinkLabel': 'overflow',
    'TocDoesNotRenderAsCoherentList': 'incoherent',
    'GithubOverflowOrderedListMarker': 'number',
    'StdinIsNotAFileToBeWritten': 'stdin',
}


class Hang(BaseException):
    """A call did not end in time."""


def _alarm(signum, frame):
    raise Hang


_hangs = 0


def call(f, *args, limit=10.0, **kwargs):
    """Give ('ok', result), ('err', documented error) or ('exc', exception)."""
    global _hangs
    if _hangs >= 2:
        # The verdict is already known: do not wait so long again.
        limit = min(limit, 0.5)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return 'ok', f(*args, **kwargs)
    except Hang:
        _hangs += 1
        return 'exc', 'Hang'
    except SystemExit:
        return 'exc', 'SystemExit'
    except Exception as e:
        name = type(e).__name__
        if name in DOCUMENTED:
            return 'err', DOCUMENTED[name]
        return 'exc', name
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def cps(s):
    return [ord(c) for c in s]


def text(codes):
    return ''.join(map(chr, codes))


def write(path, content):
    """Write the exact text in UTF-8."""
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(content)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def project(toc, links, newline='\n'):
    """Split a table of contents in entries [indent, marker, label, anchor].

    Gives None if a line does not have the shape of an entry.
    """
    if toc == '':
        return []
    if not toc.endswith(newline):
        return None
    entries = []
    for line in toc[:-len(newline)].split(newline):
        rest = line.lstrip(' ')
        indent = len(line) - len(rest)
        i = rest.find(' ')
        if i <= 0:
            return None
        marker, rest = rest[:i], rest[i + 1:]
        if links:
            if not rest.startswith('[') or not rest.endswith(')'):
                return None
            j = rest.rfind('](#')
            if j < 0:
                return None
            entries.append([indent, marker, rest[1:j], rest[j + 3:-1]])
        else:
            entries.append([indent, marker, rest, ''])
    return entries


DEFAULTS = dict(ordered=False, no_links=False, no_indentation=False, no_list_coherence=False,
                keep_header_levels=3, parser='github', list_marker='-', skip_lines=0,
                constant_ordered_list=False, newline_string=os.linesep)


def api_options(opt, parser, newline='\n'):
    """The keyword arguments of build_toc for the options of the spec.

    Those which have the documented default are left out half of the time.
    """
    args = dict(
        ordered=opt['ordered'],
        no_links=not opt['links'],
        no_indentation=not opt['indent'],
        no_list_coherence=not opt['coherent'],
        keep_header_levels=opt['keep'],
        parser=parser,
        list_marker=chr(opt['mark']),
        skip_lines=opt['skip'],
        constant_ordered_list=opt['const'],
        newline_string=newline,
    )
    if zlib.crc32(repr(sorted(args.items())).encode()) & 1:
        args = {k: v for k, v in args.items() if DEFAULTS.get(k) != v}
    return args


@contextlib.contextmanager
def standard_input(data):
    """Replace standard input, the descriptor too, by the bytes of data.

    It is a pipe, as the output of another program is, or a regular file.
    """
    if len(data) % 3 == 0 or len(data) > 60000:
        fd = os.memfd_create('stdin')
        with open(fd, 'wb', closefd=False) as f:
            f.write(data)
        os.lseek(fd, 0, os.SEEK_SET)
    else:
        fd, w = os.pipe()
        os.write(w, data)
        os.close(w)
    old = sys.stdin
    try:
        saved = os.dup(0)
    except OSError:
        saved = None
    os.dup2(fd, 0)
    os.close(fd)
    sys.stdin = open(0, encoding='utf-8', closefd=False)
    try:
        yield
    finally:
        sys.stdin = old
        if saved is not None:
            os.dup2(saved, 0)
            os.close(saved)


def build(path, opt, parser, newline='\n'):
    return call(api.build_toc, path, **api_options(opt, parser, newline))


def build_stdin(data, opt, parser, newline='\n'):
    with standard_input(data):
        return call(api.build_toc, '-', **api_options(opt, parser, newline))


# ---- the program ------------------------------------------------------------
def program(argv, stdin=b'', limit=20.0):
    """Run the program in this process: (exit status, output, errors)."""
    import md_toc.__main__ as entry
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['md_toc'] + list(argv)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with standard_input(stdin), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            entry.main()
        code = 'returned'
    except SystemExit as e:
        code = e.code if e.code is not None else 0
    except Hang:
        code = 'Hang'
    except BaseException as e:
        code = type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.argv = old
    return code, out.getvalue(), err.getvalue()


def argv_of(opt, parser, files, marker=None, in_place=False, diff=False, newline=None, r=None):
    """The command for the options of the spec; r chooses among spellings."""
    def pick(*names):
        return names[0] if r is None else r.choice(names)

    def valued(short, long, value):
        if r is None:
            return [short, value]
        x = r.random()
        if x < 0.4:
            return [short, value]
        if x < 0.6 and not value.startswith('-'):
            return [short + value] if value else [short, value]
        if x < 0.8:
            return [long + '=' + value]
        return [long, value] if not value.startswith('-') else [long + '=' + value]

    head = []
    if not opt['indent']:
        head.append([pick('-i', '--no-indentation')])
    elif not opt['coherent']:
        head.append([pick('-c', '--no-list-coherence')])
    if not opt['links']:
        head.append([pick('-l', '--no-links')])
    if marker is not None:
        head.append(['--toc-marker=' + marker] if marker.startswith('-') else
                    valued('-m', '--toc-marker', marker))
    if newline is not None:
        head.append(valued('-n', '--newline-string', newline.replace('\r', r'\r')
                           .replace('\n', r'\n')))
    if in_place:
        head.append([pick('-p', '--in-place')])
    if diff:
        head.append([pick('-d', '--diff')])
    if opt['skip'] or (r is not None and r.random() < 0.1):
        head.append(valued('-s', '--skip-lines', str(opt['skip'])))
    tail = []
    mark = chr(opt['mark'])
    ordered = opt['ordered'] or (opt['const'] and mark in '.)')
    if ordered and (mark not in '.)' or (mark == ')' and parser == 'redcarpet')):
        # The program only takes the markers of the parser: this one stands
        # for the default.
        mark = '.'
    if ordered:
        tail.append(['-o', mark] if r is None else
                    r.choice([['-o', mark], ['-o' + mark], ['--ordered-list-marker', mark],
                              ['--ordered-list-marker=' + mark]]))
    elif not (mark == '-' and (r is None or r.random() < 0.7)):
        tail.append(['-u' + mark] if r is None else
                    r.choice([['-u' + mark], ['--unordered-list-marker=' + mark]]))
    if opt['const']:
        tail.append([pick('-c', '--constant-ordered-list')])
    if opt['keep'] != 6 or (r is not None and r.random() < 0.2):
        tail.append(valued('-l', '--header-levels', str(opt['keep'])))
    if r is not None:
        r.shuffle(head)
        r.shuffle(tail)
    head = [x for part in head for x in part]
    tail = [x for part in tail for x in part]
    # File names may precede the options of the parser.
    if r is not None and files and r.random() < 0.3:
        return head + [parser] + list(files) + tail
    return head + [parser] + tail + list(files)
