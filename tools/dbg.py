"""dbg.py PROP [n]: run a stand-in and print every failure (development aid)."""
import sys, os, tempfile, time, importlib, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + '/standin', V + '/tools']
import core
s = tempfile.mkdtemp(prefix='hushv.')
b = os.environ.get('HUSH') or core.build(s)
c = core.Ctx(b, s, int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'), time.time() + 600)
t = time.time(); importlib.import_module(sys.argv[1].lower()).run(c)
for f in c.failures[:int(sys.argv[2]) if len(sys.argv) > 2 else 8]:
    print('=====', f['group']); print(f['script'][:700]); print('-- expected:', f['expected'][:400]); print('-- got:', f['got'][:500])
print(len(c.failures), c.runs, c.groups, '%.1fs' % (time.time() - t)); sys.stdout.flush(); shutil.rmtree(s); os._exit(0)
