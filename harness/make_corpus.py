"""Writes corpus/<name>.zip: archives written by another version of skops, and the digests of the
objects they hold.  Only those archives are kept that this version loads to an equal object.

    SKOPS_REPO=<checkout of that version> python harness/make_corpus.py NAME"""
from __future__ import annotations

import json
import sys
import warnings
import zipfile

import common

common.use_repo()
import samples  # noqa: E402
from project import digest  # noqa: E402

import skops.io as sio  # noqa: E402

warnings.simplefilter("ignore")
out = {}
with zipfile.ZipFile(common.VERIF / "corpus" / f"{sys.argv[1]}.zip", "w", zipfile.ZIP_DEFLATED) as z:
    for k, v in {**samples.samples(), **samples.estimators()}.items():
        try:
            b = sio.dumps(v)
            r = sio.loads(b, trusted=sio.get_untrusted_types(data=b))
            if digest(r) == digest(v):
                z.writestr(zipfile.ZipInfo(k + ".skops"), b, zipfile.ZIP_DEFLATED)
                out[k] = digest(v)
            else:
                print("differs", k)
        except Exception as e:
            print("cannot", k, repr(e)[:100])
    z.writestr(zipfile.ZipInfo("digests.json"), json.dumps(out, indent=0), zipfile.ZIP_DEFLATED)
print(len(out), "archives")
