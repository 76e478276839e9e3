"""Results of many random calls, as one hash (see mutate.py)."""
import hashlib
import os
import random
import signal
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import gen  # noqa: E402
import grammar  # noqa: E402
import impl  # noqa: E402
import files  # noqa: E402
from md_toc import cli  # noqa: E402
import contextlib  # noqa: E402
import io  # noqa: E402

api = impl.api
signal.alarm(100)
h = hashlib.sha1()


only = sys.argv[1] if len(sys.argv) > 1 else ''
known = open(sys.argv[2]).read().split() if len(sys.argv) > 2 else []
marks = []
calls = 0


def put(*x):
    """Add a result; stop where it is known to differ."""
    global calls
    h.update(repr(x).encode('utf-8', 'surrogatepass'))
    calls += 1
    if calls % 100 == 0:
        marks.append(h.hexdigest()[:12])
        if known and known[len(marks) - 1] != marks[-1]:
            print('differs')
            sys.stdout.flush()
            import shutil
            shutil.rmtree(work)
            os._exit(0)


r = random.Random(7)
work = tempfile.mkdtemp(dir='/dev/shm')
os.chdir(work)
try:
    for i in range(6000):
        s = grammar.emphasis(r)
        put(impl.call(api.remove_emphasis, s, 'github', limit=2))
        s = grammar.raw(r, True)
        p = r.choice(impl.ALL_PARSERS)
        put(impl.call(api.remove_html_tags, s, p, limit=2))
        s = grammar.raw(r, False)
        put(impl.call(api.build_anchor_link, s, {}, p, limit=2))
    for i in range(0 if only == 'cmark' else 1500):
        fam = r.choice(['gfm', 'cm', 'gl', 'rc'])
        lines = gen.document(r)
        if isinstance(lines, list):
            lines = '\n'.join(lines)
        nl = r.choice(['\n', '\r\n', '\r'])
        impl.write('d.md', lines.replace('\n', nl))
        kw = dict(parser=r.choice(impl.PARSERS[fam]), ordered=r.random() < .5, no_links=r.random() < .3,
                  no_indentation=r.random() < .2, no_list_coherence=r.random() < .5,
                  keep_header_levels=r.randint(1, 6), list_marker=r.choice('-+*.)'),
                  skip_lines=r.choice([0, 0, 0, 1, 2, 9]), constant_ordered_list=r.random() < .2,
                  newline_string=r.choice(['\n', '\r\n', '\r']))
        put(impl.call(api.build_toc, 'd.md', **kw))
        for l in lines.split('\n')[:6]:
            put(impl.call(api.is_opening_code_fence, l, kw['parser']),
                impl.call(api.is_closing_code_fence, l, '```', False, kw['parser']))
        toc = files.toc_text(r)
        m = r.choice(['<!--TOC-->', '[TOC]'])
        raw = files.file_lines(r, m, toc)
        raw = raw if isinstance(raw, str) else nl.join(raw)
        impl.write('f.md', raw)
        put(impl.call(api.tocs_equal, toc, 'f.md', m))
        put(impl.call(api.write_string_on_file_between_markers, 'f.md', toc, m, nl), impl.read('f.md'))
        if i % 4 == 0:
            impl.write('f.md', raw + nl + lines.replace('\n', nl))
            argv = [x for a in r.sample(['-p', '-d', '-l', '-i', '-s 1', '-n \\n', '-n \\r\\n', '-m [TOC]', '-c'], 3)
                    for x in a.split()]
            argv += r.choice([['github'], ['redcarpet', '-o', '.'], ['cmark', '-o', ')'], ['cmark', '-u', '+'],
                              ['gitlab', '-l', '3'], ['gitlab', '-o', '.'], ['goldmark', '-c']])
            argv += ['f.md', 'd.md'][:r.randint(1, 2)]
            out, err = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                got = impl.call(lambda: cli.CliInterface().parser.parse_args(argv))
                if got[0] == 'ok':
                    got = impl.call(lambda: got[1].func(got[1]))
            put(got, out.getvalue(), impl.read('f.md'))
finally:
    import shutil
    shutil.rmtree(work)
print(' '.join(marks + [h.hexdigest()]))
