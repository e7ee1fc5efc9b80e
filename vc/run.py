import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REG = {'C05': ('invalid', 'c05'), 'C02': ('bindings', 'c02'), 'C07': ('term', 'c07'), 'C21': ('roundtrip', 'c21'), 'C16': ('tolerance', 'c16'), 'C17': ('borders', 'c17'), 'C18': ('stable', 'c18'), 'C04': ('detect', 'c04'), 'C20': ('detect', 'c20'), 'C13': ('wet', 'c13'), 'C14': ('wet', 'c14'), 'C15': ('backward', 'c15'), **{c: ('relations', c.lower()) for c in ('C09', 'C10', 'C11', 'C12', 'C19')}, 'C01': ('dispatch', 'c01'), 'C03': ('dispatch', 'c03'), 'C06': ('dispatch', 'c06'), 'C08': ('purity', 'c08')}
def main():
    pid = sys.argv[1]
    m, f = REG[pid]
    try:
        rc = getattr(__import__(m), f)()
    except Exception:
        traceback.print_exc(); print(f'ERROR {pid}: the check could not be completed'); rc = 3
    sys.stdout.flush(); os._exit(rc)
main()
