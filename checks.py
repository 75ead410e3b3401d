"""Configuration of the checks: harness, build flavours, number of cases (quick, thorough)."""
CHECKS = {
 "C01": {"src": "c01.cpp", "cases": (20000, 2000000), "must_see": {"pinhole comparisons": 1000, "camera on glass normal": 100}},
 "C02": {"src": "c02.cpp", "cases": (30000, 3000000), "must_see": {"rays traced": 1000, "projections through 3 layers": 500}},
 "C04": {"src": "c04.cpp", "cases": (900, 300000), "must_see": {"covered points": 1000, "uncovered points": 1000, "tables built again": 100}},
 "C05": {"src": "c05.cpp", "cases": (20000, 2000000)},
 "C06": {"src": "c06.cpp", "cases": (20000, 2000000)},
 "C23": {"src": "c23.cpp", "cases": (5000, 500000), "rates": [("adjustment with glass", "converged with glass", "glass adjustments", 0.8), ("adjustment near the true camera", "adjustments near the true camera that converge", "adjustments near the true camera", 0.998)]},
 "C03": {"src": "c03.cpp", "cases": (20000, 2000000), "must_see": {"rough orientations that failed": 20, "adjustments that failed": 20, "adjustments that converged": 20, "calibration files read": 1000}},
 "C24": {"src": "c24.cpp", "cases": (10000, 1000000), "rates": [("rough orientation from a near start", "converged from a near start", "near starts", 0.9)]},
 "C25": {"src": "c25.cpp", "cases": (10000, 1000000)},
 "C07": {"src": "c07.cpp", "cases": (20000, 2000000), "must_see": {"exact points": 1000}},
 "C08": {"src": "c08.cpp", "cases": (4000, 400000), "must_see": {"true matches": 1000, "with slanted bounds": 1000, "volume extents": 100}},
 "C09": {"src": "c09.cpp", "cases": (10000, 1000000), "must_see": {"searches in long lists": 1000, "searches with candidates": 5000, "segments off the sensor": 500}},
 "C10": {"src": "c10.cpp", "cases": (1500, 200000), "must_see": {"groups of four": 1000, "groups of three": 500, "groups of two": 500, "acceptable groups examined": 10000}},
 "C11": {"src": "c11.cpp", "cases": (2000, 300000), "must_see": {"particles seen by 4": 500, "particles seen by 3": 500, "particles seen by 2": 500, "particles seen by fewer than 2": 100}},
 "C12": {"src": "c12.cpp", "cases": (40000, 2000000), "must_see": {"blobs in reference": 10000, "isolated blobs": 1000, "blobs outside the limits": 1000, "windows without a blob": 100, "strips longer than 32767 pixels": 20, "brightness sums beyond an int": 1}},
 "C13": {"src": "c13.cpp", "cases": (40000, 2000000), "must_see": {"regions matched": 3000, "peaks united": 1000, "images with more peaks than fit": 2, "strips longer than 32767 pixels": 20, "brightness sums beyond an int": 1}},
 "C14": {"src": "c14.cpp", "cases": (40000, 4000000), "must_see": {"lowpass": 1000, "3x3 filter": 1000, "box blur": 1000, "blur wider than the image": 300, "field split": 1000, "highpass": 2000, "filter files rejected": 100, "sums beyond an int": 1}},
 "C26": {"src": "c26.cpp", "cases": (200000, 20000000), "must_see": {"overlapping calls": 1000, "sub-matrix calls": 1000, "dumbbell sets": 1000, "matinv": 1000, "matmul": 1000, "comparisons equal": 100}},
 "C27": {"src": "c27.cpp", "cases": (200000, 20000000), "must_see": {"empty lists": 1000, "lists with equal keys": 1000, "groups by quality": 1000, "candidate lists": 1000, "candidate lists without agreement": 100}},
 "C15": {"src": "c15.cpp", "cases": (20000, 2000000), "must_see": {"searches for particles": 10000, "searches with four candidates": 1000, "searches in long lists": 500, "search windows": 5000, "candidate sets with agreeing cameras": 500}},
 "C16": {"src": "c16.cpp", "cases": (3000, 300000), "must_see": {"links written": 1000, "particles added": 300, "backward passes that added links": 20, "runs without spare room": 50}},
 "C17": {"src": "c17.cpp", "cases": (3000, 300000), "must_see": {"runs compared with the reference tracker": 300, "links compared": 1000, "ideal links": 1000}},
 "C18": {"src": "c18.cpp", "cases": (3000, 300000), "must_see": {"runs with additions compared": 300, "additions in the reference": 200, "links made backwards": 50}},
 "C19": {"src": "c19.cpp", "cases": (3000, 300000), "must_see": {"frames read": 5000, "frames written": 1000, "reads that must fail": 1000, "other sources of frames": 100}},
 "C20": {"src": "c20.cpp", "cases": (6000, 600000), "must_see": {"whole frames": 3000, "empty frames": 100, "empty detection lists": 100, "files in other layouts": 3000, "neighbouring frames": 2000, "calls with decimal commas set": 1000}},
 "C21": {"src": "c21.cpp", "cases": (15000, 1500000), "must_see": {"calibrations": 1000, "calibrations compared": 1000, "control files": 1000, "sequence files": 1000, "parameter files": 5000, "calibration blocks": 1000, "manual orientation files": 1000, "frame items compared": 1000, "default distortion": 100, "distortion from the fallback": 300, "calls with decimal commas set": 1000}},
 "C22": {"src": "c22.cpp", "cases": (30000, 3000000), "must_see": {"files that must be rejected": 10000, "files that must be read": 2000, "failing writes": 1000}},
 "C28": {"src": "c28.cpp", "cases": (1500, 150000), "must_see": {"image to trajectory chains": 100, "crowded matchings": 20, "crowded tracking runs": 20, "stages whose memory was accounted": 1000}, "sweep": {"c%02d.cpp" % k: 0.06 for k in range(1, 28)}},
 "C29": {"src": "c29.cpp", "cases": (800, 80000), "flavours": ["plain", "msan"], "second_share": 0.6, "sweep_flavour": "msan", "sweep": {"c%02d.cpp" % k: 0.02 for k in range(1, 28)}},
 "C30": {"py": "c30.py", "py_cases": (1280, 80000), "py_flavour": ["python+asan"], "must_see": {"cases of tracking": 10, "trackings started over": 1, "trackings finished early": 1, "cases of objects": 20, "full calibrations": 20, "matches of 4 cameras": 50, "matches of 3 cameras": 50, "matches of 2 cameras": 20, "layouts tried": 500, "targets recognised": 50, "links in tracked files": 200, "object operations": 500}},
 "C31": {"py": "c31.py", "py_cases": (360, 30000), "py_flavour": ["python+asan"], "must_see": {"objects that share memory": 200, "objects dropped": 300, "wrong uses tried": 500, "calls with any arguments": 2000, "operations measured": 200, "disturbances of a tracker": 20}},
}
