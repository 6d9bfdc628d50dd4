COMMON = '''
import os, numpy as np
S = os.environ['SCRATCH']
'''
# -------- io
seed('C04-archive-same-name', 'C04', 'a script that mixes archives with the same file name in different directories, sequential reading',
     'The reader keeps the archive open when only the directory changes, so records come from the wrong archive.',
     [('hyperion/io/ark_data_reader.py', "        if self.f is None or file_path != self.cur_file:",
       "        if self.f is None or file_path.split('/')[-1] != self.cur_file.split('/')[-1]:")],
     COMMON + '''
from hyperion.io import DataWriterFactory as W, SequentialDataReaderFactory as R
lines = []
for p in 'ab':
    os.makedirs(S + '/' + p)
    with W.create('ark,scp:%s/%s/x.ark,%s/%s/x.scp' % (S, p, S, p)) as w:
        w.write(['k' + p], [np.ones((2, 3)) * ord(p)])
    lines += open(S + '/%s/x.scp' % p).read()
open(S + '/all.scp', 'w').write(''.join(lines))
with R.create('scp:' + S + '/all.scp') as r:
    k, d = r.read()
assert k == ['ka', 'kb'] and d[0][0, 0] == ord('a') and d[1][0, 0] == ord('b')
''')

seed('C02-shape-of-doubles', 'C02', 'a Kaldi archive of double precision matrices, and reading of shapes in sequence followed by other reads',
     'Skipping a matrix while reading its shape assumes four byte values, so the next record of a double precision archive is misread.',
     [('hyperion/utils/kaldi_matrix.py', "                f.seek(num_rows*num_cols*np.dtype(dtype).itemsize, 1)\n\n            if ndim == 1:",
       "                f.seek(num_rows*num_cols*np.dtype(float_cpu()).itemsize//2, 1)\n\n            if ndim == 1:")],
     COMMON + '''
import struct
from hyperion.io import SequentialDataReaderFactory as R
x = np.random.RandomState(1).randn(3, 4)
with open(S + '/a.ark', 'wb') as f:
    for k in (b'u', b'v'):
        f.write(k + b' \\0BDM \\4' + struct.pack('<i', 3) + b'\\4' + struct.pack('<i', 4) + x.tobytes())
with R.create('ark:' + S + '/a.ark') as r:
    k, s = r.read_shapes(1)
    assert k == ['u'] and tuple(s[0]) == (3, 4)
    k, d = r.read(1)
assert k == ['v'] and np.allclose(d[0], x)
''')

seed('C05-scale-negative', 'C05', 'a compressed matrix scaled by a negative number',
     'Scaling keeps the range positive, which mirrors nothing and shifts the values.',
     [('hyperion/utils/kaldi_matrix.py', "        self.data_range *= alpha", "        self.data_range *= abs(alpha)")],
     COMMON + '''
from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as K
x = np.random.RandomState(1).randn(20, 3).astype('float32')
m = K.compress(x, '2byte-auto')
m.scale(-2.)
assert np.allclose(m.to_ndarray(), -2 * x, atol=1e-2)
''')

seed('C06-sorted-and-once', 'C06', 'comparison of two read specifiers that differ only in whether keys are asked in sorted order',
     'Specifiers that differ in the called-sorted option are taken as equal.',
     [('hyperion/io/rw_specifiers.py', "        eq = eq and self.called_sorted == other.called_sorted", "        eq = eq and self.is_sorted == other.is_sorted")],
     COMMON + '''
from hyperion.io.rw_specifiers import RSpecifier as R
assert R.create('ark,cs:a.ark') != R.create('ark:a.ark')
assert R.create('ark,cs:a.ark') == R.create('cs,ark:a.ark')
''')

seed('C07-chunk-tail', 'C07', 'copying of parts of a script whose length is not a multiple of the chunk size',
     'The last incomplete chunk is not copied when there is more than one part.',
     [('hyperion/io/copy_feats.py', "                        if len(key) == 0:", "                        if len(key) == 0 or (num_parts > 1 and 1 < len(key) < chunk_size):")],
     COMMON + '''
from hyperion.io import DataWriterFactory as W, SequentialDataReaderFactory as R, CopyFeats
with W.create('ark,scp:%s/a.ark,%s/a.scp' % (S, S)) as w:
    w.write(['k%02d' % i for i in range(10)], [np.ones((2, 2)) * i for i in range(10)])
got = []
for p in (1, 2):
    CopyFeats('scp:%s/a.scp' % S, 'ark:%s/b.ark' % S, part_idx=p, num_parts=2, chunk_size=3)
    with R.create('ark:%s/b.ark' % S) as r:
        got += r.read()[0]
assert got == ['k%02d' % i for i in range(10)], got
''')

seed('C07-merge-last-chunk', 'C07', 'merging of files with a chunk size and a number of data sets that leaves one data set for the last chunk',
     'The last chunk starts one data set late when it is a single one.',
     [('hyperion/io/h5_merger.py', "        for first in xrange(0, len(datasets), chunk):", "        for first in xrange(0, max(len(datasets)-1, 1), chunk):")],
     COMMON + '''
from hyperion.io import H5Merger, HypDataReader, HypDataWriter
HypDataWriter(S + '/a.h5').write(['k%d' % i for i in range(5)], '', [np.ones((2, 2)) * i for i in range(5)])
H5Merger([S + '/a.h5'], S + '/b.h5', 2).merge()
r = HypDataReader(S + '/b.h5')
assert r.get_datasets() == ['k%d' % i for i in range(5)], r.get_datasets()
''')

seed('C08-flush-after-batch', 'C08', 'a flushing writer that is given several records at once, one of them refused, and the process dying later without closing',
     'The writer flushes once per call instead of after each record, so what was accepted before a refused record is lost.',
     [('hyperion/io/ark_data_writer.py', """            if self._flush:
                self.flush()
""", """            if self._flush and i == len(keys) - 1:
                self.flush()
""")],
     COMMON + '''
import signal
from hyperion.io import DataWriterFactory as W, SequentialDataReaderFactory as R
pid = os.fork()
if pid == 0:
    try:
        w = W.create('ark,f,scp:%s/a.ark,%s/a.scp' % (S, S))
        try:
            w.write(['a', 'b', 'bad key'], [np.ones((2, 2))] * 3)
        except AssertionError:
            pass
    finally:
        os.kill(os.getpid(), signal.SIGKILL)
os.waitpid(pid, 0)
with R.create('ark:%s/a.ark' % S) as r:
    assert r.read()[0] == ['a', 'b']
assert len(open(S + '/a.scp').readlines()) == 2
''')

seed('C09-segment-end', 'C09', 'segments of recordings whose sampling rate is not the one of the recording before',
     'The end of the segment is found with the rate rounded to kHz, so segments of 11025 Hz or 22050 Hz recordings have wrong length.',
     [('hyperion/io/audio_reader.py', "        s_end = int(t_end * fs_i)", "        s_end = s_beg + int((t_end - t_beg) * (fs_i // 1000) * 1000)")],
     COMMON + '''
import soundfile as sf
from hyperion.io import SequentialAudioReader as R
x = np.arange(22050) / 40000.
sf.write(S + '/a.wav', x, 11025)
open(S + '/a.scp', 'w').write('r %s/a.wav\\n' % S)
open(S + '/seg', 'w').write('s r 0.5 1.5\\n')
with R(S + '/a.scp', S + '/seg') as r:
    k, y, fs = r.read()
assert abs(len(y[0]) - 11025) <= 1, len(y[0])
''')

seed('C09-random-segment', 'C09', 'reading segments by key when the recording of the next key is the same',
     'A recording without its scale: pipes ignore the scale that was asked for.',
     [('hyperion/io/audio_reader.py', "            return AudioReader.read_pipe(wavspecifier, scale)", "            return AudioReader.read_pipe(wavspecifier)")],
     COMMON + '''
import soundfile as sf
from hyperion.io import RandomAccessAudioReader as R
x = np.arange(100) / 400.
sf.write(S + '/a.wav', x, 8000)
open(S + '/a.scp', 'w').write('r cat %s/a.wav |\\n' % S)
y, fs = R(S + '/a.scp', wav_scale=1).read('r')
assert np.allclose(y[0], x, atol=1e-4), y[0][:5]
''')

seed('C03-offset-compressed-column', 'C03', 'range of rows of a column-compressed matrix that starts after the first row and reaches the last row, two or more columns',
     'When nothing is left after the range, the read of the last columns is not moved by the row offset.',
     [('hyperion/utils/kaldi_matrix.py', "                if bytes_offset == 0 and bytes_left == 0:", "                if bytes_left == 0 and (bytes_offset == 0 or bytes_col == 1):")],
     COMMON + '''
from hyperion.io import DataWriterFactory as W, RandomAccessDataReaderFactory as R
x = np.random.RandomState(1).randn(12, 3)
with W.create('ark,scp:%s/a.ark,%s/a.scp' % (S, S), compress=True, compression_method='speech-feat') as w:
    w.write(['a', 'b'], [x, x])
with R.create('scp:' + S + '/a.scp') as r:
    assert np.allclose(r.read(['a'], row_offset=11, num_rows=1)[0], r.read(['a'])[0][11:])
''')


seed('C05-three-rows', 'C05', 'speech-feat compression of a matrix of exactly three rows', 'The largest of three values is stored as one step above the middle one.',
     [('hyperion/utils/kaldi_matrix.py', "            if self.num_rows > 2:", "            if self.num_rows > 3:")],
     COMMON + '''
from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as K
x = np.array([[0., 5.], [1., 6.], [3., 7.]], dtype='float32')
y = K.compress(x, 'speech-feat').to_ndarray()
assert np.max(np.abs(y - x)) < .1, y
''')
