"""Write MANIFEST.json (run by hand when the list of the checks changes)."""
import json

T = {
    'C01': ('TLC explores the document model, every behaviour is replayed into build_toc; random traces validated with TLC', 'documents of up to 4-5 lines over 8-10 line kinds, all option sets listed'),
    'C02': ('TLC enumerates heading lines from the model and replays them into get_atx_heading; trace validation of random lines', 'lines of up to 6 characters over the deciding alphabet'),
    'C03': ('TLC explores the fence automaton with a probe heading after every document, replayed into build_toc; trace validation', 'documents of up to 3-5 lines over 13 fence kinds'),
    'C04': ('TLC enumerates labels and rejections from the model, replayed into the code; trace validation around the 999 limit', 'texts of up to 5 characters over the label alphabet'),
    'C05': ('TLC enumerates texts with their slugs from the model, replayed into build_anchor_link; trace validation', 'every Latin-1 character in context, texts of up to 4 tokens'),
    'C06': ('TLC explores documents with colliding slugs, replayed into build_toc; trace validation up to hundreds of duplicates', 'documents of up to 4 lines over 7 colliding lines'),
    'C07': ('TLC explores all level sequences with the nesting invariant, replayed into build_toc; trace validation with wide numbers', 'all coherent level sequences of up to 6 headings'),
    'C08': ('TLC explores numbering and markers, replayed into build_toc; trace validation', 'all level sequences of up to 6 headings'),
    'C09': ('TLC explores all level sequences, acceptance replayed into build_toc; trace validation', 'all level sequences of up to 5 headings'),
    'C10': ('TLC explores the marker file machine, each file written by the real code; trace validation', 'files of up to 5 lines over the marker alphabet'),
    'C11': ('TLC explores histories of edits and runs, replayed into the code on a real file; trace validation', 'up to 3-4 events on files with up to 2 lines'),
    'C12': ('TLC explores the marker file machine with verdicts, replayed into the code; trace validation', 'files of up to 5 lines over the marker alphabet'),
    'C13': ('TLC explores runs over pools of files, replayed into build_multiple_tocs and write; trace validation', 'all sequences of up to 3 files of a pool'),
    'C14': ('TLC enumerates command lines from the model of the program, replayed into the real program; trace validation', 'all pairs and a share of the triples of options'),
    'C15': ('TLC enumerates raw texts, both ways of reading replayed; trace validation of the relation', 'raw texts of up to 5 tokens'),
    'C16': ('TLC enumerates raw texts and files under the newline styles, replayed; trace validation', 'raw texts of up to 5 tokens, files of up to 4 lines'),
    'C17': ('TLC checks termination of the model and validates the outcome of every run against the allowed ones', 'byte strings of up to 3 pieces, random and long texts'),
    'C18': ('TLC checks the atomic write machine and validates snapshots of the file system recorded at every step, fault and crash', 'every line, sampled opcodes, each failing system operation, kills'),
    'C19': ('TLC enumerates texts with the CommonMark delimiter algorithm of the model, replayed into remove_emphasis; trace validation', 'texts of up to 6 characters over the delimiter alphabet, no links'),
    'C20': ('TLC enumerates texts with the HTML grammar of the model, replayed into remove_html_tags; trace validation', 'texts of up to 3-4 tokens around the grammar of each construct'),
    'C21': ('TLC explores documents and numbers of skipped lines, replayed; trace validation of the relation', 'documents of up to 4 lines, N up to 5'),
    'C22': ('trace validation with TLC of the relation between parsers over documents generated for the model', 'random documents, rich inline content'),
    'C23': ('TLC explores histories of operations, replayed in fresh and used processes; trace validation', 'histories of up to 3 operations, random ones of up to 12'),
    'C24': ('TLC enumerates calls and histories of calls of the argument model, each replayed on real counters, logs and files; trace validation', '50 000 calls around the bounds, all pairs of 40 calls'),
    'C25': ('TLC explores documents of the model, each replayed as a composition of the public functions and compared with build_toc; trace validation of the relation', 'documents of up to 4 lines, random documents processed in turns'),
    'C26': ('TLC enumerates strings from the model of the helpers, replayed into them; trace validation over all of Unicode and lists of ranges', 'strings of up to 5 tokens, every Latin character in context, every single range on 4 characters'),
}
checks = []
for p, (how, bound) in sorted(T.items()):
    checks.append(dict(
        property=p,
        quick_cmd='python3 check.py %s --tier quick' % p,
        thorough_cmd='python3 check.py %s --tier thorough' % p,
        technique='TLA+ specification: ' + how,
        level='model_checking',
        level_note='Exhaustive within the bounds of the model (quick tier: %s), each behaviour '
                   'replayed into the real code; sampled beyond them. Trusts TLC, the '
                   'specification in spec/, and the character classes of spec/Text.tla.' % bound))
json.dump(dict(
    version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
    notes='TLA+ with TLC; the specification is in spec/, what binds it to the code in harness/. '
          'No hooks in /repo.'), open('MANIFEST.json', 'w'), indent=1)
