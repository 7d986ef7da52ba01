"""development helper: analyse single obligations:  one.py c03::views_linear,2,3,False ...   (suffix @r: reverse map order)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
sys.setrecursionlimit(30000)
import extract as X, oblig, signal
try:
    p, i = X.extract(X.spec_modules())
except RuntimeError as e:
    s = str(e)
    print("\n".join(l for l in s.splitlines() if "error" in l or "-->" in l)[:3000]); sys.exit(2)
R = oblig.Runner(p, X.extract_model())
class TO(Exception): pass
def al(*_): raise TO()
signal.signal(signal.SIGALRM, al)
for a in sys.argv[1:]:
    w = a.split(",")
    rev = w[-1].endswith("@r")
    w[-1] = w[-1].replace("@r", "")
    args = [eval(x) for x in w[1:]]
    signal.alarm(int(os.environ.get("LIM", "60")))
    try:
        r = R.run(w[0], args, maporder=-1 if rev else 1)
    except TO:
        print(w[0], args, "TIME LIMIT"); continue
    except Exception as e:
        import traceback; print(w[0], args, "INTERNAL", traceback.format_exc()[-1500:]); continue
    finally:
        signal.alarm(0)
    print(w[0], args, "claims", r.claims, "dec", r.decided, "und", r.undecided, "bad", len(r.bad), "%.2fs" % r.wall, r.error or "")
    for x in r.bad[:3]: print("   ", x[1][:400])
    for x in r.open[:4]: print("   open:", x)
    if r.error and os.environ.get("TB"): print(r.tb[-1500:])
