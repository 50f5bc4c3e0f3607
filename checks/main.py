import sys, importlib, traceback
import vlib
MODS = {'D': 'c_dom', 'C': 'c_sax', 'X': 'c_xpath', 'T': 'c_xslt', 'H': 'c_html', 'U': 'c_util', 'G': 'c_gen',
        'M': 'c_mem', 'R': 'c_thr', 'I': 'c_io'}
SCALES = dict(C01=1.5, C02=3, C03=3, C04=4, C05=3, C06=4, C07=5, D01=2, D02=2, D03=2, D04=2, D05=2, D06=1.5, D07=2, D08=4, D09=2,
              H01=3, H02=5, I01=2, T01=1.5, T02=2, T03=1.5, T04=1.5, T05=1.5, U01=4, U02=3, U03=3, X01=2, X02=4, X03=4, X04=4)
pid = sys.argv[1]
vlib.SCALE = SCALES.get(pid, 1)
try:
    m = importlib.import_module(MODS[pid[0]])
    getattr(m, 'check_' + pid)()
except vlib.HarnessError as e:
    print('HARNESS ERROR:', e, file=sys.stderr)
    sys.exit(2)
