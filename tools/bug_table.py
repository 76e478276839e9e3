"""Rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # missed by the checks as they were when planted -> what was added
    'entries-bounded': 'stage `thousands` of C01 (TraceMany)',
    'setext-hides': 'more lines that look like other blocks',
    'gitlab-squeezed-late': 'headings apart only by symbols',
    'lower-by-character': 'final sigmas in the model',
    'chunked-crlf': 'line endings across the ends of buffers (C15, C16, C10)',
    'copied-in-text': 'longer lines in the files of C10',
    'overflow-counts-escapes-of-pairs': 'mixed labels next to the limit',
    'table-splitlines': 'separators of str.splitlines in the tables of C10',
    'exponential-blanks': 'regions of many blanks in C10',
    'notice-basename': 'odd paths in C17',
    'trimmed-newline-argument': 'stage `long` of C16',
    'coherence-through-code': 'stage `code` of C09',
    'hidden-blank-labels': 'long blank labels',
    'sublist-marker-cycle': 'stage `deep` of C07 and C08',
    'equal-with-entities': 'stage `near` of C12',
    'equal-in-any-case': 'stage `near` of C12',
    'unicode-newlines-in-files': 'separators of str.splitlines in the files',
    'duplicates-nfkc': 'anchors with the same compatibility form',
    'bounded-tags': 'stage `many` of C20',
    'markers-near-the-top': 'longer files in C10',
    'many-markers': 'files of many markers in C10',
    'fence-with-long-info': 'longer fences and info strings',
    'long-fence': 'longer fences and info strings',
    'thousand-levels-of-skip': 'more than 65535 skipped lines',
    'quotes-are-unfenced': 'block-quoted fences in the alphabet',
    'stdin-in-one-read': 'pipe fed piece by piece',
    'exponential-attributes': 'repeated pieces with a time limit',
    'email-autolink-is-strict': 'grammar-made texts',
    'short-uri-schemes': 'grammar-made texts',
    'sixteen-backticks': 'sizes at the limits in the grammar',
    'nested-parentheses': 'sizes at the limits in the grammar',
    'ascii-flanks': 'every character of Unicode next to a run',
    'upper-case-disallowed': 'case variants in the HTML grammar',
    'commonmarker-own-html': 'grammar-made texts in documents',
    'goldmark-number-width': 'long lists for the aliases',
    'redcarpet-entity-stops-at-space': 'entities with blanks in the grammar',
    'duplicates-by-adler32': 'stage `crowd`',
    'bounded-list-detection': 'long files in C11',
    'cached-fences': 'variants of a call in one history',
    'skip-lines-of-files-only': 'skipping in the stdin relation',
    'skip-is-bounded': 'long documents and skips',
    'numbers-modulo-thousand': 'stage `crowd` (TraceSiblings)',
    'block-before-code': 'fences in the alphabet of MCFile',
    'special-mode-bits': 'special bits among the modes of C18',
    'html-cache': 'more texts in the stage `variants` of C23',
    'deep-code-in-build': 'stage `fences` of C25, much longer closing fences',
    'sublists-reset-in-build': 'stage `jumps` of C25',
    'joiners-kept': 'stage `characters` of C26',
    'tail-of-crlf': 'stage `fences` of C16',
}
by = collections.defaultdict(list)
for b in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    by[json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))['property']].append(b)
out = ['<!-- bugs -->', '', '| check | changes it catches |', '|---|---|']
for k in sorted(by):
    out.append('| %s | %s |' % (k, ', '.join(b + ('*' if b in MISSED else '') for b in by[k])))
out += ['', 'The ones with a star were missed at first:', '', '| change | what was added |', '|---|---|']
out += ['| %s | %s |' % (b, t) for b, t in sorted(MISSED.items())]
out += ['', '<!-- /bugs -->']
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
a, z = s.index('<!-- bugs -->'), s.index('<!-- /bugs -->') + len('<!-- /bugs -->')
open(p, 'w').write(s[:a] + '\n'.join(out) + s[z:])
