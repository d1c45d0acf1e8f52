"""Master pattern files written here and read by the code, judged by MasterFile.tla."""
import os
import tempfile

import numpy as np

import crystal_common as X
import image_common as I


def run(ck):
    import h5py

    from ebsdtorch.io.read_master_pattern import read_master_pattern

    rng = ck.numpy_rng(0)
    recs = []
    with tempfile.TemporaryDirectory() as tmp:
        for q in range(60 if ck.quick else 800):
            n, m = int(rng.integers(2, 6)), int(rng.integers(1, 6))
            ne, ns = int(rng.integers(1, 7)), int(rng.integers(1, 4)) if q % 2 else 1
            counts = rng.integers(0, [2, 50, 30000, 90000][q % 4], (m, m, ne))
            counts[0, 0, int(rng.integers(0, ne))] += 1
            if q % 5 == 0:
                counts[..., 0] = 0
                counts[0, 0, -1] += 1
            north, south = (rng.integers(0, 1 + 18 // ns, (ns, ne, n, n)) for _ in range(2))
            sg = q % 230 + 1 if q % 2 else int(rng.integers(1, 231))
            data = {"space group": sg, "energies": ne, "sites": ns, "size": n, "electrons": int(counts.sum())}
            path = os.path.join(tmp, f"{q}.h5")
            with h5py.File(path, "w") as f:
                f["EMData/MCOpenCL/accum_e"] = counts.astype([np.int32, np.uint32, np.float32][int(rng.integers(0, 3))])
                f["EMData/EBSDmaster/mLPNH"] = north.astype(np.float32)
                f["EMData/EBSDmaster/mLPSH"] = south.astype(np.float32)
                f["CrystalData/SpaceGroupNumber"] = np.array([sg], np.int32)
            with ck.guard("reading a master pattern", data, 30):
                mp = read_master_pattern(path)
                if ck.expect(mp.master_pattern.dim() == 2, "one pattern", data):
                    recs.append(dict(counts=counts.tolist(), north=north.tolist(), south=south.tolist(), sg=sg, laue=int(mp.laue_group), got=[X.fixn(r, 1e8) for r in mp.master_pattern.tolist()], id=data))
            os.remove(path)
            ck.trace()
            if q % 20 == 0:
                ck.sample(data)
        try:
            read_master_pattern(os.path.join(tmp, "missing.h5"))
            ck.expect(False, "missing files are refused", {})
        except Exception:
            pass
    I.judge(ck, recs, "MasterFile")
