"""fork-based parallel map: children inherit the loaded module; results must be picklable."""
import os, pickle, sys, select, traceback
def pmap(f, items, nproc=None):
    items = list(items); n = nproc or min(8, os.cpu_count() or 1); res = [None] * len(items); run = {}; nxt = 0
    while nxt < len(items) or run:
        while nxt < len(items) and len(run) < n:
            r, w = os.pipe(); sys.stdout.flush(); pid = os.fork()
            if pid == 0:
                os.close(r)
                try: out = (True, f(items[nxt]))
                except BaseException as e: out = (False, f'{type(e).__name__}: {e}')
                with os.fdopen(w, 'wb') as h: pickle.dump(out, h)
                os._exit(0)
            os.close(w); run[r] = (nxt, pid, []); nxt += 1
        for r in select.select(list(run), [], [], 5)[0]:
            i, pid, buf = run[r]; d = os.read(r, 1 << 20)
            if d: buf.append(d); continue
            os.close(r); os.waitpid(pid, 0); del run[r]
            try: res[i] = pickle.loads(b''.join(buf))
            except Exception as e: res[i] = (False, f'worker died: {e}')
    return res
