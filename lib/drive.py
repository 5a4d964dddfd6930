import importlib, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import vlib
name, libdir, out, seed, tier, shard, nshards = sys.argv[1:8]
mod, _, fn = name.partition(":")
m = importlib.import_module(mod)
t = vlib.Trace(out)
getattr(m, fn or "drive")(vlib.Lib(libdir), t, random.Random("%s/%s/%s" % (seed, name, shard)), tier, int(shard), int(nshards))
t.close()
