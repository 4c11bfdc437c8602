#!/usr/bin/env python3
# DESIGN.md = tools/design_head.md + tools/design_extra.md + the table of planted bugs
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = json.load(open(here + '/tools/caught_by.json'))
text = open(here + '/tools/design_head.md').read().rstrip('\n') + '\n' + open(here + '/tools/design_extra.md').read()
text += '| planted bug | needs | breaks | caught by |\n|----|----|----|----|\n'
for path in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(path)); name = path.split('/')[-2]
    text += '| %s | %s | %s | %s |\n' % (name, m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|'), ' '.join(also.get(name, [m['property']])))
open(here + '/DESIGN.md', 'w').write(text)
