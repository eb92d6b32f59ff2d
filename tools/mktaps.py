"""One-off: the published filter tables (to 2^-28) as data of the specification (spec/taps.json.gz)."""
import gzip, json, pywt
d = {n: [[round(v * 2 ** 28) for v in f] for f in pywt.Wavelet(n).filter_bank] for n in pywt.wavelist(kind="discrete")}
open("/verif/spec/taps.json.gz", "wb").write(gzip.compress(json.dumps(d).encode(), mtime=0))
