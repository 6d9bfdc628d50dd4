COMMON = '''
import os, numpy as np
S = os.environ['SCRATCH']
from hyperion.io import DataWriterFactory as WF, SequentialDataReaderFactory as SF, RandomAccessDataReaderFactory as RF
'''
seed('C01-block-limit', 'C01', 'a record whose binary marker lies across the limit of two blocks of the file', 'The record is taken for text.',
     [('hyperion/utils/kaldi_io_funcs.py', """        f.read(peek_bytes)
        delta_bytes = num_bytes-peek_bytes
        p = p + f.peek(delta_bytes)[:delta_bytes]
        f.seek(-peek_bytes, 1)
""", """        p = f.peek(num_bytes)[:num_bytes]
""")],
     COMMON + '''
for shift in range(0, 90):
    with WF.create('ark:' + S + '/a.ark') as w:
        w.write(['a' * (1 + shift), 'b'], [np.ones(1010, 'float32'), np.ones(3, 'float32')])
    k, x = SF.create('ark:' + S + '/a.ark').read()
    assert k[1] == 'b' and np.all(x[1] == 1)
''')
seed('C04-same-name', 'C04', 'a script that refers to files of the same name in different directories', 'Records are read from the file of another directory.',
     [('hyperion/io/ark_data_reader.py', "if self.f is None or file_path != self.cur_file:", "if self.f is None or file_path.split('/')[-1] != self.cur_file.split('/')[-1]:")],
     COMMON + '''
l = []
for i, d in enumerate('ab'):
    os.makedirs(S + '/' + d)
    with WF.create('ark,scp:%s/%s/x.ark,%s/%s/x.scp' % (S, d, S, d)) as w:
        w.write('k%d' % i, np.ones(2) * i)
    l += open('%s/%s/x.scp' % (S, d)).readlines()
open(S + '/all.scp', 'w').writelines(l)
k, x = SF.create('scp:' + S + '/all.scp').read()
assert x[0][0] == 0 and x[1][0] == 1
''')
seed('C02-sorted-archives', 'C02', 'a script that names several archives not in alphabetical order', 'Records are read from another archive.',
     [('hyperion/io/ark_data_reader.py', "        self.archives = archives\n", "        self.archives = list(dict.fromkeys(self.scp.file_path))\n")],
     COMMON + '''
l = []
for i, d in enumerate('ba'):
    with WF.create('ark,scp:%s/%s.ark,%s/%s.scp' % (S, d, S, d)) as w:
        w.write('k%d' % i, np.ones(2) * i)
    l += open('%s/%s.scp' % (S, d)).readlines()
open(S + '/all.scp', 'w').writelines(l)
x = RF.create('scp:' + S + '/all.scp').read(['k0', 'k1'])
assert x[0][0] == 0 and x[1][0] == 1, x
''')
