# prints what the front end's reader says about each of the given link files
import importlib.util, sys
sys.dont_write_bytecode = True
s = importlib.util.spec_from_file_location("network", sys.argv[1])
m = importlib.util.module_from_spec(s)
sys.dont_write_bytecode = True
s.loader.exec_module(m)
for f in sys.argv[2:]:
    print(*m.read_undirected_network(f))
