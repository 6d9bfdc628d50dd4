COMMON = '''
import os, sys, numpy as np
S = os.environ['SCRATCH']
'''

seed('C06-script-first', 'C06', 'a write specifier that names the script before the archive', 'The last of the files is taken as script whatever the order of the options.',
     [('hyperion/io/rw_specifiers.py', "                    script = archives[cur_archive]\n", "                    script = archives[-1]\n")],
     COMMON + '''
from hyperion.io.rw_specifiers import WSpecifier
w = WSpecifier.create('scp,ark:a.scp,a.ark')
assert (w.archive, w.script) == ('a.ark', 'a.scp'), (w.archive, w.script)
''')

seed('C11-last-part-rest', 'C11', 'splitting a list in a number of parts that does not divide it', 'All the parts are rounded down and what is left goes to the last, which can be much longer.',
     [('hyperion/utils/list_utils.py', """    n = float(len(a))
    idx_1 = int(np.floor((idx-1)*n/num_parts))
    idx_2 = int(np.floor(idx*n/num_parts))
""", """    n = len(a)//num_parts
    idx_1 = (idx-1)*n
    idx_2 = len(a) if idx == num_parts else idx*n
""")],
     COMMON + '''
from hyperion.utils.list_utils import split_list
n = [len(split_list(list(range(19)), i, 10)[0]) for i in range(1, 11)]
assert sum(n) == 19 and max(n) - min(n) <= 1, n
''')

seed('C16-first-letter', 'C16', 'a wrong boolean option', 'Only the first letter of a boolean option is looked at.',
     [('hyperion/utils/misc.py', """    if s.lower() not in values:
        raise ValueError('Need bool; got %r' % s)
    return values[s.lower()]
""", """    if s[:1].lower() not in values:
        raise ValueError('Need bool; got %r' % s)
    return values[s[:1].lower()]
""")],
     COMMON + '''
from hyperion.utils.misc import str2bool
assert str2bool('No') is False and str2bool('T') is True
for s in ('none', 'never', 'tru', 'file.txt', ''):
    try:
        str2bool(s)
    except ValueError:
        continue
    sys.exit(s + ' was taken as a boolean')
''')

