#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.

The third column names the check that catches the bug (that of its property);
'after' marks bugs that were missed when they were planted, with what was added.
"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AFTER = {
 'b219': 'words like keywords', 'b231': 'one node in two places', 'b232': 'names that differ in the case of one letter', 'b233': 'foreign words between any two tokens', 'b236': 'messages with format verbs that went wrong', 'b237': 'faults late in long outputs', 'b243': 'characters of no width in strings', 'b281': 'variables of every kind next to one another', 'b287': 'all escapes, one by one',
 'b163': 'pushbacks within texts of 70 000 tokens', 'b169': 'long texts that differ in one character (alikes)', 'b185': 'very long texts (runs.go)', 'b193': 'wide characters within every kind of token',
 'b130': 'names of devices that mean something elsewhere (*, commas, braces)', 'b134': 'names that differ in one place only', 'b136': 'chains of several hundred operators',
 'b137': 'conditions with hundreds of well-typed parts and an ill-typed one', 'b143': 'geometries of several hundred parts', 'b144': 'malformed tokens at the end of long ones',
 'b145': 'every escape, cut short by every character', 'b147': 'histories about texts with malformed tokens', 'b148': 'long runs of different blanks', 'b149': 'comments with every kind of character',
 'b155': 'values that no text stands for (odd.go)', 'b156': 'words of other languages at the places of ours', 'b159': 'more families of repetitions', 'b160': 'words of other languages at the places of ours',
 'b71': 'commas and semicolons at every place of built statements', 'b72': 'edits of names in built statements', 'b73': 'edits of one bound of a range',
 'b83': 'long runs of empty reads (Stutter of ScanBuf)', 'b84': 'errors of many kinds, wrapped ones too, from readers', 'b85': 'errors of many kinds from writers',
 'b86': 'calls that end early, followed by other calls', 'b87': 'small and large numbers in sweeps', 'b94': 'identifier predicates that depend on the index',
 'b95': 'characters whose low bits are those of ASCII ones', 'b99': 'calls that end early (rejected, failed, panicked) before other calls',
 'b100': 'variables whose values have references to themselves (refText)', 'b101': 'sweeps with one damage (spoiled)', 'b112': 'texts of more than a hundred malformed tokens',
 'b113': 'texts of up to 8 MB', 'b116': 'deep and long well-typed conditions for CheckType', 'b117': 'GqlParts: every part of a statement assigned to',
 'b119': 'sweeps with blanks around punctuation', 'b125': 'pushback histories on texts in other cases and layouts',
}
rows = []
d = os.path.join(here, 'seeded')
for b in sorted(os.listdir(d), key=lambda x: int(re.match(r'b(\d+)', x).group(1))):
    m = json.load(open(os.path.join(d, b, 'meta.json')))
    k = b.split('-')[0]
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), AFTER.get(k, '')))
t = ['## Table of planted bugs', '',
     'Each is caught by the quick check of its own property. The last column says what was added to the machinery for the',
     'bugs that it missed when they were planted.', '',
     '| bug | property and check | needs | effect | missed at first; added |', '|---|---|---|---|---|'] + rows
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
i = s.find('\n## Table of planted bugs')
if i >= 0:
    s = s[:i]
open(p, 'w').write(s.rstrip('\n') + '\n\n' + '\n'.join(t) + '\n')
