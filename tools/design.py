#!/usr/bin/env python3
""" Write DESIGN.md: tools/design.md, then one section per property and the table of planted bugs """
import ast, glob, json, os
ROOT = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
ORACLE = {
'C01': 'replays the events on an independent table of all (text, combinations) of the layout: pieces must concatenate to the text, each be the longest entry that fits at its position',
'C02': 'all offered combinations are compared with the chosen one by a specification of “fewer keys, then balanced hands, then alternation with the previous press”',
'C03': 'a brute force search over all entries of the description (no trie)',
'C04': 'the description itself; equality is compared with equality of descriptions, specialised layouts entry by entry',
'C05': 'the description itself, a deep copy of it taken before, and the order of its rows',
'C06': 'equality of names / of sets of names; hashes of equal objects; the same after a round trip into a second simulated interpreter with its own history of `Button` creation',
'C07': 'counting the events in the harness, per class of equal buttons/combinations/characters',
'C08': 'maximal runs computed from the list of hands/fingers (`Writer.fingerHandMap` turned around), not incrementally',
'C09': 'windows of the filtered event list',
'C10': 'splitting the concatenated text by category (`unicodedata` tables as intervals)',
'C11': 'typing each text separately in one process and adding up counts per key',
'C12': '`harness/spec_carpalx.py`, written from the published definition of carpalx; weights as symbolic reals where feasible',
'C13': 'a ghost multiset of (triad, weight) and the mean computed from it',
'C14': 'exchange compared with the state before; energy recomputed from scratch by a new `Carpalx` on the remapped triads; the random generator returns any value (symbolic)',
'C15': 'ghost list of all accepted states and energies',
'C16': 'the YAML document which is emitted, compared as multisets per modifier set with the original; energy recomputed from the emitted layout',
'C17': 'character by character lookup in the map; meaning via `unicodedata.digit` / NFKC (concrete sweep of the shipped table)',
'C18': 'archives are assembled by the harness from members with symbolic content, so the expected list is known; a watchdog turns non-termination into a violation',
'C19': 'plain data released by a simulated decompressor in any portions; concatenation of reads is compared with it',
'C20': 'token trees built by the harness; text and line breaks derived from the tree recursively',
'C21': 'DOM documents built by the harness; expected lines derived from the tree',
'C22': 'lists and ghost counters of what was drawn from the source',
'C23': 'inequalities over integers/reals: |shown·unit − number| ≤ unit/20, largest unit; best approximation among all denominators',
'C24': 'geometry (positions, widths, overlaps) as linear inequalities over symbolic widths; texts per quadrant, recorded by a stand-in for svgwrite',
'C25': 'small interpreters for xmodmap, Keyman and keylayout files applied to the output, compared with the layout for every key × layer',
'C26': 'parsers for ASK XML (real ElementTree) and Klavaro lines',
'C27': 'an interpreter of the tables (VK mapping, modifier bits, VK_TO_WCHARS) according to kbd.h',
'C28': 'sums over the symbolic counts, written separately per figure; ln is an uninterpreted function',
'C29': 'KLC text assembled by the harness from a table key → codes; expectation is NFD of the codes',
'C30': 'categories and names from unicodedata as interval tables',
'C31': 'the multiset of processed items, results written, termination (deadlock = all simulated processes blocked)',
'C32': 'a table of existing files; expectation is the documented order of resolution',
'C33': 'sums over the statistics passed in; a recorder instead of jinja2',
'C34': 'stand-ins hold symbolic texts; the list of results is compared with them',
'C36': 'tables written from the standards (scancode set 1, evdev, macOS virtual key codes), rule of touch typing, the alphabet',
'C35': 'commands are replaced by recorders; what they receive is compared with the symbolic values put on the command line (argparse itself is executed symbolically)',
}
out = [open (os.path.join (ROOT, 'tools', 'design.md')).read ().rstrip (), '', '## Properties', '']
NA = {x['property']: x['reason'] for x in json.load (open (os.path.join (ROOT, 'MANIFEST.json')))['not_applicable']}
cost = json.load (open (os.path.join (ROOT, 'tools', 'cost.json')))
for l in open (os.path.join (ROOT, 'properties.jsonl')):
    p = json.loads (l)
    i = p['id']
    out += [f'### {i} {p["title"]}', '']
    if i in NA:
        out += [f'Not applicable: {NA[i]}', '']
        continue
    t = ast.parse (open (os.path.join (ROOT, 'harness', i.lower ()+'.py')).read ())
    v = {n.targets[0].id: n.value for n in t.body if isinstance (n, ast.Assign) and isinstance (n.targets[0], ast.Name)}
    b, o = ast.literal_eval (v['BOUNDS']), ast.literal_eval (v['OUTSIDE'])
    c = cost.get (i)
    out += [f'- over: {p["quantifier"]["text"]}; why not tests: {p["why_tests_cant"]}',
        f'- oracle: {ORACLE[i]}',
        f'- bounds (quick): {b["quick"]}',
        f'- bounds (thorough): {b["thorough"]}',
        f'- outside: {o}']
    if c:
        out.append (f'- cost (quick, 8 cores): {c["wall"]:.0f} s, {c["paths"]} paths, {c["queries"]} queries, {c["solver"]:.0f} s of z3')
    out.append ('')
out += ['## Planted bugs', '', 'All of them pass the existing tests; “caught by” is the quick check of the property (run against each of them).', '', '| id | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted (glob.glob (os.path.join (ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load (open (f))
    out.append (f'| {f.split ("/")[-2]} | {m["property"] if not m.get ("missed") else "–"} | {m["what_it_breaks"]} | {m["needs"]} |')
open (os.path.join (ROOT, 'DESIGN.md'), 'w').write ('\n'.join (out)+'\n')
