#!/usr/bin/env python3
""" Write properties.jsonl and MANIFEST.json from the table below """
import json, os, sys

ROOT = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
PY = '/opt/venv/bin/python'
TECH = 'symbolic execution of the real Python functions with z3 (bounded), counterexamples replayed natively'
NOTE = 'Every value within the bounds of the evidence file is decided by z3 over the code instrumented from /repo at run time; trusts the symbolic runtime in symx/ (string, dict, pickle models; each path is cross-checked by a native run of its witness), z3 and CPython. '

P = []
def prop (id, title, statement, over, qtext, why, files, mech, note=''):
    P.append ((id, title, statement, over, qtext, why, files, mech, note))

prop ('C01', 'Typing accounts for every character exactly once',
    'Typing a text on a layout yields one event per consumed piece of text, in order: either a key combination whose text on the layout is exactly the consumed piece, or a skip of a single character. The consumed pieces concatenate to the text. At each position the longest text the layout can produce is chosen, and a character is skipped only if the layout has nothing that fits there; this includes layouts with no text at all.',
    ['inputs', 'configurations'], 'all texts (any Unicode, any length within the bound) and all layouts, shipped or made up',
    'The tests type a few fixed strings on shipped layouts; the buffering and longest match depend on the relation between every text and every layout.',
    ['lulua/writer.py', 'lulua/layout.py'], [('longest prefix lookup and buffer refill', 'Writer.type'), ('trie of texts', 'KeyboardLayout')])
prop ('C02', 'The cheapest of several key combinations is chosen',
    'If a text is on several combinations, the chosen one is among those offered, and no other one needs fewer keys, or equally many keys but balances hands better (with both hands on the keys of the combination, then in relation to the previously pressed combination). The choice is deterministic and does not disturb the combinations.',
    ['inputs', 'histories'], 'all sets of offered combinations and all previously pressed combinations',
    'Tests try three fixed layouts/histories; the ordering must hold for any set of candidates and any history.',
    ['lulua/writer.py', 'lulua/layout.py'], [('weighting of candidates', 'Writer.chooseCombination'), ('previous combination', 'Writer.press')])
prop ('C03', 'Text lookup and reverse lookup of a layout agree',
    'Looking up text on a layout returns the longest text of the layout which is a prefix of the input together with exactly the combinations producing it, or fails if there is none. Every combination returned yields that very text when looked up in the other direction, and iterating the layout visits every text on it. A copy of a layout is equal to it and behaves the same, whatever happens to the original afterwards.',
    ['inputs', 'configurations'], 'all layouts and all looked up texts',
    'Tests look up a couple of fixed characters; agreement concerns every text on every layout and every input.',
    ['lulua/layout.py'], [('trie and inverse map', 'KeyboardLayout.__init__'), ('lookup', 'KeyboardLayout.__call__'), ('reverse lookup', 'KeyboardLayout.getText')])
prop ('C04', 'Layout descriptions survive loading, saving and adaption to a keyboard',
    'A layout loaded from its description and saved again yields the same description and an equal layout; differing layouts are not equal. Adapting it to a physical keyboard keeps every text on the button of that name below the same modifiers, and invents nothing.',
    ['inputs', 'configurations'], 'all layout descriptions',
    'Tests round-trip only the shipped layouts.',
    ['lulua/layout.py', 'lulua/keyboard.py'], [('(de)serialisation', 'GenericLayout.serialize/deserialize'), ('adaption', 'GenericLayout.specialize')])
prop ('C05', 'Keyboard descriptions survive loading and saving',
    'A keyboard loaded from its description and saved again yields the same description, with the type, width, mark, span and scancodes of every button; neither loading nor saving modifies its input. Lookup by name and row queries agree with the description.',
    ['inputs', 'configurations'], 'all keyboard descriptions',
    'Tests round-trip only the shipped keyboards and compare just a few attributes.',
    ['lulua/keyboard.py'], [('(de)serialisation', 'PhysicalKeyboard.serialize/deserialize, Button.serialize/deserialize'), ('lookup', 'PhysicalKeyboard.__getitem__, getRow, keys')])
prop ('C06', 'Buttons and combinations keep their identity across processes',
    'Two buttons are equal exactly if their names are, and two combinations exactly if their modifiers and buttons are; equal ones always have equal hashes. This remains true after objects were pickled and loaded in another process, no matter which buttons that process created before.',
    ['inputs', 'histories'], 'all buttons, combinations and histories of button creation in both processes',
    'Tests compare buttons within a single process, where every creation order gives consistent identities.',
    ['lulua/keyboard.py', 'lulua/layout.py'], [('interned names', 'Button.__init__, __reduce__'), ('value semantics', 'ButtonCombination.__eq__/__hash__/__setstate__')])
prop ('C07', 'Key, combination and unknown character counts are exact',
    'After processing a stream of events the count of every button, every combination and every skipped character is exactly the number of its occurrences, and counts of anything else are zero. Merging the statistics of two streams adds the counts.',
    ['inputs', 'histories'], 'all event streams and all ways to split them',
    'Tests feed one or two fixed streams.',
    ['lulua/stats.py'], [('counting', 'SimpleStats.process'), ('merge', 'SimpleStats.update')])
prop ('C08', 'Run lengths of hands and fingers are exact',
    'Every maximal run of consecutive presses by the same hand, ended by a press of the other hand, is counted once under that hand with its length, and likewise for fingers under the finger which made the run; an unknown character starts afresh. Merging the statistics of two streams adds the counts.',
    ['inputs', 'histories'], 'all event streams',
    'Tests check hand runs of one fixed stream only.',
    ['lulua/stats.py', 'lulua/writer.py'], [('run tracking', 'RunlenStats.process'), ('merge', 'RunlenStats.update'), ('finger assignment', 'Writer.getHandFinger')])
prop ('C09', 'Triads are exactly the windows of three consecutive presses',
    'The count of every triad equals the number of windows of three consecutive combinations in the stream, where space, return and tab do not participate and an unknown character separates. Merging the statistics of two streams adds the counts.',
    ['inputs', 'histories'], 'all event streams',
    'Tests check one fixed stream.',
    ['lulua/stats.py'], [('sliding window', 'TriadStats.process'), ('merge', 'TriadStats.update')])
prop ('C10', 'Words are counted exactly',
    'The counted words are the maximal runs of letters (category Lo) and marks (Mn) in the typed text which are ended by some other typed character, each counted as often as it occurs, regardless of how the text is distributed among key presses; the word in progress is discarded if a character cannot be typed. Merging the statistics of two streams adds the counts.',
    ['inputs', 'histories'], 'all texts and all distributions of it on key presses',
    'Tests check one short fixed text.',
    ['lulua/stats.py'], [('word collection', 'WordStats.process'), ('merge', 'WordStats.update')])
prop ('C11', 'Corpus statistics do not depend on how work was split up',
    'The combined statistics of a corpus are the same as if each of its texts was typed on its own in one process and counts added up, no matter which worker processes which item, in which order the results are combined, and in how many separately started processes. A source which cannot be read does not affect the result of the others.',
    ['inputs', 'schedules', 'fault_sequences'], 'all assignments of items to workers, all orders of combination and all failing items',
    'Tests merge one pair of statistics in the same process.',
    ['lulua/text.py', 'lulua/stats.py'], [('worker loop', 'writeWorker'), ('result merge', 'stats.combine, *.update'), ('pickling', 'Button.__reduce__')])
prop ('C12', 'Typing effort of a triad follows the carpalx definition',
    'The effort of a triad is the weighted sum of base, penalty and stroke path effort of its three presses as published for carpalx: discounted sums over the presses, hand and finger penalties, and hand/row/finger stroke path flags. This holds for every triad with or without modifiers and for every model, shipped (with its published parameters) or not.',
    ['inputs', 'configurations'], 'all triads and all model parameters (real numbers)',
    'Tests compare a few dozen fixed triads with fixed results.',
    ['lulua/carpalx.py', 'lulua/writer.py'], [('stroke path', 'Carpalx._strokePath*'), ('efforts', 'Carpalx._triadEffort, _baseEffort, _penalty')])
prop ('C17', 'Corpus text normalisation replaces exactly the mapped characters',
    'Normalising corpus text replaces every mapped character by its mapping and keeps all others, independent of its context; normalising twice changes nothing. The shipped mapping preserves the meaning of characters: digits map to digits of equal value, and presentation forms to their components.',
    ['inputs', 'configurations'], 'all texts and mappings',
    'Tests check two fixed strings.',
    ['lulua/text.py'], [('mapping', 'mapChars, charMap')])

NA = []

exec (compile (open (os.path.join (ROOT, 'tools', 'more.py')).read (), 'more.py', 'exec')) if os.path.exists (os.path.join (ROOT, 'tools', 'more.py')) else None

with open (os.path.join (ROOT, 'properties.jsonl'), 'w') as fd:
    for id, title, statement, over, qtext, why, files, mech, note in sorted (P):
        assert len (title) <= 80, title
        assert statement.count ('. ') <= 2, (id, statement.count ('. '))
        json.dump ({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': a, 'where': f'{b}'} for a, b in mech]}}, fd)
        fd.write ('\n')

na = {x for x, _ in NA}
m = {'version': 1,
    'setup_cmd': f'{PY} /verif/check.py --selftest',
    'checks': [{'property': p[0], 'quick_cmd': f'{PY} /verif/check.py --prop {p[0]} --tier quick', 'thorough_cmd': f'{PY} /verif/check.py --prop {p[0]} --tier thorough',
        'technique': TECH, 'level': 'model_checking', 'level_note': NOTE+p[-1]} for p in sorted (P) if p[0] not in na],
    'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
with open (os.path.join (ROOT, 'MANIFEST.json'), 'w') as fd:
    json.dump (m, fd, indent=1)
    fd.write ('\n')
