"""child process of C04: run a.yml in the current directory and write the digests of every output at every step"""
import json
import sys


def main():
    yml, prec, out, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    import specula
    specula.init(device_idx=-1, precision=prec)
    import numpy as np
    np.random.seed(seed)
    from harness import monitor, sp
    s, m = monitor.run_monitored([yml], isolation=False)
    log = {nm: [[int(t), {k: [[d, int(g)] for d, g in v] for k, v in outs.items()}] for t, outs in L] for nm, L in m.log.items()}
    json.dump(log, open(out, 'w'))


main()
